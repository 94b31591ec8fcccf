From 24dd4656cef47d06a39aad216804f7a35585491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 001/129] fix: byte-sized % could move %ah to a register
 needing a REX prefix

---
 6/isel.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 0000424..2fa105c 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -951,8 +951,11 @@ selexpr(Isel *s, Node *n)
 			d = coreg(Reax, mode(n));
 		else if (r->mode != ModeB)
 			d = coreg(Redx, mode(n));
-		else
-			d = locphysreg(Rah);
+		else {
+			/* %ah can't be moved to a register that needs a REX prefix */
+			d = coreg(Reax, mode(n));
+			g(s, Imov, locphysreg(Rah), d, NULL);
+		}
 		g(s, Imov, d, r, NULL);
 		break;
 	case Oneg:
-- 
2.43.0


From cbc5fe28811ed6fac83556b20520f64c3143ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 002/129] fix: compare indexes unsigned in bounds checks, so
 that negative ones abort

---
 6/simp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index 6b2a9d6..e75835b 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -489,7 +489,7 @@ idxaddr(Simp *s, Node *seq, Node *idx)
 	assert(exprtype(t)->type == Typtr);
 	u = rval(s, idx, NULL);
 	u = ptrsized(s, u);
-	checkidx(s, Olt, w, u);
+	checkidx(s, Oult, w, u);
 	sz = tysize(ty);
 	v = mul(u, disp(seq->loc, sz));
 	r = add(t, v);
@@ -699,8 +699,9 @@ simpslice(Simp *s, Node *n, Node *dst)
 	/* we can be storing through a pointer, in the case
 	 * of '*foo = bar'. */
 	max = seqlen(s, seq, tyword);
-	if (max)
-		checkidx(s, Ole, max, end);
+	if (max) {
+		checkidx(s, Oule, max, end);
+	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
 		sz = addk(simpcast(s, t, mktyptr(t->loc, tyintptr)), Ptrsz);
-- 
2.43.0


From 14fb8553af78824bdd3f642e6721e286160f74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 003/129] fix: abort when the lower bound of a slice is past
 its upper bound

---
 6/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/6/simp.c b/6/simp.c
index e75835b..8ea4f4c 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -701,6 +701,7 @@ simpslice(Simp *s, Node *n, Node *dst)
 	max = seqlen(s, seq, tyword);
 	if (max) {
 		checkidx(s, Oule, max, end);
+		checkidx(s, Oule, end, start);
 	}
 	if (tybase(exprtype(t))->type == Typtr) {
 		stbase = set(simpcast(s, t, mktyptr(t->loc, tyintptr)), base);
-- 
2.43.0


From 5d35fa21e30b2e23f3e219e00b991332d8bbec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 004/129] fix: sign extend narrow signed indexes, so that
 negative ones abort

---
 6/isel.c | 5 ++++-
 6/simp.c | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 2fa105c..c50a36a 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -1136,7 +1136,10 @@ selexpr(Isel *s, Node *n)
 		a = selexpr(s, args[0]);
 		a = inr(s, a);
 		r = locreg(mode(n));
-		g(s, Imovsx, a, r, NULL);
+		if (a->mode == r->mode)
+			g(s, Imov, a, r, NULL);
+		else
+			g(s, Imovsx, a, r, NULL);
 		break;
 	case Oint2flt:
 		a = selexpr(s, args[0]);
diff --git a/6/simp.c b/6/simp.c
index 8ea4f4c..f588fa7 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -415,7 +415,7 @@ ptrsized(Simp *s, Node *v)
 	if (size(v) == Ptrsz)
 		return v;
 	else if (size(v) < Ptrsz)
-		v = mkexpr(v->loc, Ozwiden, v, NULL);
+		v = mkexpr(v->loc, istysigned(exprtype(v)) ? Oswiden : Ozwiden, v, NULL);
 	else if (size(v) > Ptrsz)
 		v = mkexpr(v->loc, Otrunc, v, NULL);
 	v->expr.type = tyintptr;
-- 
2.43.0


From 381da51e7914c8ec9096b89573204556d7ac8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 005/129] fix: fold constants in the type of the expression

---
 parse/fold.c | 63 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 4094c49..2dc4b8b 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -43,12 +43,40 @@ isintval(Node *n, vlong val)
 	return v == val;
 }
 
+/* constants wrap the same way that values of the type do at run time */
+static vlong
+wrap(vlong val, Type *t)
+{
+	if (!t)
+		return val;
+	switch (tybase(t)->type) {
+	case Tyint8:	return (int8_t)val;
+	case Tyint16:	return (int16_t)val;
+	case Tyint:
+	case Tyint32:	return (int32_t)val;
+	case Tybyte:
+	case Tyuint8:	return (uint8_t)val;
+	case Tyuint16:	return (uint16_t)val;
+	case Tyuint:
+	case Tychar:
+	case Tyuint32:	return (uint32_t)val;
+	default:	return val;
+	}
+}
+
+/* narrower unsigned types are never negative once wrapped */
+static int
+isu64(Type *t)
+{
+	return t && tybase(t)->type == Tyuint64;
+}
+
 static Node *
 val(Srcloc loc, vlong val, Type *t)
 {
 	Node *l, *n;
 
-	l = mkint(loc, val);
+	l = mkint(loc, wrap(val, t));
 	n = mkexpr(loc, Olit, l, NULL);
 	l->lit.type = t;
 	n->expr.type = t;
@@ -75,6 +103,7 @@ foldcast(Node *n)
 {
 	Type *to, *from;
 	Node *sub;
+	vlong v;
 
 	sub = n->expr.args[0];
 	to = exprtype(n);
@@ -92,7 +121,9 @@ foldcast(Node *n)
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
 		case Typtr:
-			if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
+			if (getintlit(sub, &v)) {
+				return val(n->loc, wrap(v, from), to);
+			} else if (exprop(sub) == Olit || tybase(from)->type == tybase(to)->type) {
 				sub->expr.type = to;
 				return sub;
 			} else {
@@ -204,8 +235,14 @@ fold(Node *n, int foldvar)
 		/* 0/x = 0 */
 		if (isintval(args[1], 0))
 			r = args[1];
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a / b, exprtype(n));
+		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
+			if (isu64(exprtype(n)))
+				r = val(n->loc, (uint64_t)a / (uint64_t)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, -(uint64_t)a, exprtype(n));
+			else
+				r = val(n->loc, a / b, exprtype(n));
+		}
 		break;
 	case Omod:
 		/* x%0 = error */
@@ -214,8 +251,14 @@ fold(Node *n, int foldvar)
 		/* x%1 = 0 */
 		if (isintval(args[1], 1))
 			r = val(n->loc, 0, exprtype(n));
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a % b, exprtype(n));
+		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
+			if (isu64(exprtype(n)))
+				r = val(n->loc, (uint64_t)a % (uint64_t)b, exprtype(n));
+			else if (b == -1)
+				r = val(n->loc, 0, exprtype(n));
+			else
+				r = val(n->loc, a % b, exprtype(n));
+		}
 		break;
 	case Oneg:
 		if (getintlit(args[0], &a))
@@ -226,8 +269,12 @@ fold(Node *n, int foldvar)
 			r = val(n->loc, (uint64_t)a << b, exprtype(n));
 		break;
 	case Obsr:
-		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-			r = val(n->loc, a >> b, exprtype(n));
+		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
+			if (isu64(exprtype(n)))
+				r = val(n->loc, (uint64_t)a >> b, exprtype(n));
+			else
+				r = val(n->loc, a >> b, exprtype(n));
+		}
 		break;
 	case Obor:
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
-- 
2.43.0


From bcd4fcc3394ecf1b773acc6d4a1103deb91b98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 006/129] fix: match what follows an or-pattern in every
 alternative

---
 mi/match.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index fd443d1..246b916 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -445,6 +445,23 @@ frontierdup(Frontier *fs)
 }
 
 
+static void addrec(Frontier *fs, Node *pat, Node *val, Path *path);
+
+/*
+ * Or-patterns split a frontier, inserting the new ones after it. What follows
+ * them in the enclosing pattern applies to every frontier split off so far.
+ */
+static void
+addelt(Frontier *fs, Frontier *end, Node *pat, Node *val, Path *path)
+{
+	Frontier *next;
+
+	for (; fs != end; fs = next) {
+		next = fs->next;
+		addrec(fs, pat, val, path);
+	}
+}
+
 /* addrec generates a list of slots for a Frontier by walking a pattern tree.
  * It collects only the terminal patterns like union tags and literals.
  * Non-terminal patterns like tuple/struct/array help encode the path only.
@@ -457,8 +474,9 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 	Node *memb, *name, *tagid, *p, *v, *lit, *dcl, *asn, *deref;
 	Ucon *uc;
 	char *s;
-	Frontier *next;
+	Frontier *next, *end;
 
+	end = fs->next;
 	pat = fold(pat, 1);
 	switch (exprop(pat)) {
 	case Olor:
@@ -529,12 +547,12 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 		break;
 	case Otup:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
+			addelt(fs, end, pat->expr.args[i], tupelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Oarr:
 		for (i = 0; i < pat->expr.nargs; i++) {
-			addrec(fs, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
+			addelt(fs, end, pat->expr.args[i], arrayelt(val, i), mkpath(path, i));
 		}
 		break;
 	case Ostruct:
@@ -547,7 +565,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				memb = mkexpr(ty->sdecls[i]->loc, Ogap, NULL);
 				memb->expr.type = mty;
 			}
-			addrec(fs, memb, structmemb(val, name, mty), mkpath(path, i));
+			addelt(fs, end, memb, structmemb(val, name, mty), mkpath(path, i));
 		}
 		break;
 	default:
-- 
2.43.0


From 6547721497281b0d5eb4c7d68635965cfec05f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 007/129] fix: check the default branch of a match for
 exhaustiveness

---
 mi/match.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mi/match.c b/mi/match.c
index 246b916..4cdd13b 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -855,8 +855,10 @@ verifymatch(Dtree *t)
 		return 1;
 
 	ret = 0;
-	if (t->nnext == t->nconstructors || t->any)
+	if (t->nnext == t->nconstructors)
 		ret = 1;
+	else if (t->any)
+		ret = verifymatch(t->any);
 	for (i = 0; i < t->nnext; i++)
 		if (!verifymatch(t->next[i]))
 			ret = 0;
-- 
2.43.0


From d6a66214b19dea0382e3b0de157626006fef977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 008/129] fix: read the whole tuple before a destructuring
 assignment writes

---
 mi/flatten.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 193e64b..2337d7b 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -351,12 +351,18 @@ flattenlazy(Flattenctx *s, Node *n)
 static Node *
 destructure(Flattenctx *s, Node *lhs, Node *rhs)
 {
-	Node *lv, *rv, *idx;
+	Node *lv, *rv, *idx, *t;
 	Node **args;
 	size_t i;
 
 	args = lhs->expr.args;
 	rhs = rval(s, rhs);
+	/* the whole value is read before any of the targets are written */
+	if (exprop(rhs) == Otup) {
+		t = temp(s, rhs);
+		append(s, asn(t, rhs));
+		rhs = t;
+	}
 	for (i = 0; i < lhs->expr.nargs; i++) {
 		idx = mkintlit(rhs->loc, i);
 		idx->expr.type = mktype(rhs->loc, Tyuint64);
-- 
2.43.0


From b14e1f35c099b05af3b4653dcb418ea3c42e783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 009/129] fix: type nested struct literals once the outer one
 is known

---
 parse/infer.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 68a0fd4..12dd77e 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2373,24 +2373,38 @@ infercompn(Node *n, Postcheck ***post, size_t *npost)
 				ctxstr(memb), ctxstr(aggr));
 }
 
+static void
+delaycheck(Node *n, Postcheck ***post, size_t *npost)
+{
+	Postcheck *pc;
+
+	assert(post != NULL);
+	pc = xalloc(sizeof(Postcheck));
+	pc->node = n;
+	pc->stab = curstab();
+	pc->env = curenv();
+	lappend(post, npost, pc);
+}
+
 static void
 checkstruct(Node *n, Postcheck ***post, size_t *npost)
 {
 	Type *t, *et;
 	Node *val, *name;
 	size_t i, j;
-	Postcheck *pc;
 
 	t = tybase(tf(n->lit.type));
 	/*
 	 * If we haven't inferred the type, and it's inside another struct,
-	 * we'll eventually get to it.
+	 * we'll get to it on a later pass.
 	 *
 	 * If, on the other hand, it is genuinely underspecified, we'll give
 	 * a better error on it later.
 	 */
-	if (t->type == Tyvar)
+	if (t->type == Tyvar) {
+		delaycheck(n, post, npost);
 		return;
+	}
 	if (t->type != Tystruct)
 		fatal(n, "struct literal is used as non struct type %s", tystr(n->lit.type));
 	for (i = 0; i < n->expr.nargs; i++) {
@@ -2408,12 +2422,7 @@ checkstruct(Node *n, Postcheck ***post, size_t *npost)
 		if (et) {
 			unify(val, et, type(val));
 		} else {
-			assert(post != NULL);
-			pc = xalloc(sizeof(Postcheck));
-			pc->node = n;
-			pc->stab = curstab();
-			pc->env = curenv();
-			lappend(post, npost, pc);
+			delaycheck(n, post, npost);
 			return;
 		}
 	}
-- 
2.43.0


From fe03161c18726698a0535365048ccec478feb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 010/129] fix: an aggregate with a part passed in memory is
 passed in memory

---
 6/typeinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/6/typeinfo.c b/6/typeinfo.c
index b570e00..59d34ed 100644
--- a/6/typeinfo.c
+++ b/6/typeinfo.c
@@ -428,6 +428,8 @@ static void join_classification(PassIn *current, PassIn new)
 {
 	if (*current == PassInNoPref) {
 		*current = new;
+	} else if ((*current == PassInMemory) || (new == PassInMemory)) {
+		*current = PassInMemory;
 	} else if ((*current == PassInInt) || (new == PassInInt)) {
 		*current = PassInInt;
 	} else if (*current != new) {
-- 
2.43.0


From 66fe4849632c44827e8c99a1c0788ee660149f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 011/129] fix: do not dereference a missing default when
 sharing match tree nodes

---
 mi/match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 4cdd13b..16dc89b 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -253,8 +253,8 @@ dtreusable(Dtree *dt, Node *load, Node **pat, size_t npat, Dtree **next, size_t
 			return 0;
 	}
 
-	if (dt->any == NULL && any == NULL)
-		return 1;
+	if (dt->any == NULL || any == NULL)
+		return dt->any == any;
 
 	if (dt->any->id != any->id)
 		return 0;
-- 
2.43.0


From b13fc429b4fa61d2f8f9b32af897e900130312c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 012/129] fix: assign or-pattern captures on every way into an
 arm, and do not share load expressions

---
 mi/match.c | 62 ++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/mi/match.c b/mi/match.c
index 16dc89b..4bec715 100644
--- a/mi/match.c
+++ b/mi/match.c
@@ -155,6 +155,33 @@ structmemb(Node *n, Node *name, Type *ty)
 	return elt;
 }
 
+/*
+ * Flattening and simplification rewrite expressions in place, so every
+ * use of a load needs a tree of its own.
+ */
+static Node *
+loaddup(Node *n)
+{
+	Node *r;
+	size_t i;
+
+	switch (exprop(n)) {
+	case Outag:
+	case Oudata:
+	case Oderef:
+	case Omemb:
+	case Otupget:
+	case Oidx:
+		r = mkexpr(n->loc, exprop(n), loaddup(n->expr.args[0]), NULL);
+		r->expr.type = n->expr.type;
+		for (i = 1; i < n->expr.nargs; i++)
+			lappend(&r->expr.args, &r->expr.nargs, n->expr.args[i]);
+		return r;
+	default:
+		return n;
+	}
+}
+
 static Node *
 addcapture(Node *n, Node **cap, size_t ncap)
 {
@@ -501,7 +528,7 @@ addrec(Frontier *fs, Node *pat, Node *val, Path *path)
 				fatal(dcl, "bad pattern %s:%s: missing initializer", declname(dcl), tystr(ty));
 			addrec(fs, dcl->decl.init, val, mkpath(path, 0));
 		} else {
-			asn = mkexpr(pat->loc, Oasn, pat, val, NULL);
+			asn = mkexpr(pat->loc, Oasn, pat, loaddup(val), NULL);
 			asn->expr.type = exprtype(pat);
 			lappend(&fs->cap, &fs->ncap, asn);
 
@@ -1037,26 +1064,37 @@ void
 genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 {
 	Node *jmp, *eq, *fail;
-	Node *next;
+	Node *next, *any, *asn;
 	int emit;
 	size_t i;
 
-	if (dt->emitted)
+	if (dt->emitted && dt->ncap == 0)
 		return;
 	dt->emitted = 1;
 
-	/* the we jump to the accept label when generating the parent */
+	/* captures of or-patterns are assigned on every way into the arm */
 	if (dt->accept) {
+		for (i = 0; i < dt->ncap; i++) {
+			asn = mkexpr(dt->loc, Oasn, dt->cap[i]->expr.args[0], loaddup(dt->cap[i]->expr.args[1]), NULL);
+			asn->expr.type = exprtype(dt->cap[i]);
+			lappend(out, nout, asn);
+		}
 		jmp = mkexpr(dt->loc, Ojmp, dt->lbl, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 		return;
 	}
 
+	any = NULL;
+	if (dt->any && dt->any->ncap > 0)
+		any = genlbl(dt->any->loc);
+	else if (dt->any)
+		any = dt->any->lbl;
+
 	lappend(out, nout, dt->lbl);
 	for (i = 0; i < dt->nnext; i++) {
 		if (i == dt->nnext - 1 && dt->any) {
-			fail = dt->any->lbl;
+			fail = any;
 			emit = 0;
 		} else {
 			fail = genlbl(dt->loc);
@@ -1068,28 +1106,24 @@ genmatchcode(Dtree *dt, Node ***out, size_t *nout)
 			next = dt->next[i]->lbl;
 		}
 
-		eq = mkexpr(dt->loc, Oeq, dt->load, dt->pat[i], NULL);
+		eq = mkexpr(dt->loc, Oeq, loaddup(dt->load), dt->pat[i], NULL);
 		eq->expr.type = mktype(dt->loc, Tybool);
 		jmp = mkexpr(dt->loc, Ocjmp, eq, next, fail, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
 
-		if (dt->next[i]->accept && dt->next[i]->ncap > 0) {
+		if (next != dt->next[i]->lbl)
 			lappend(out, nout, next);
-			lcat(out, nout, dt->next[i]->cap, dt->next[i]->ncap);
-			jmp = mkexpr(dt->loc, Ojmp, dt->next[i]->lbl, NULL);
-			jmp->expr.type = mktype(dt->loc, Tyvoid);
-			lappend(out, nout, jmp);
-		}
-
 		genmatchcode(dt->next[i], out, nout);
 		if (emit)
 			lappend(out, nout, fail);
 	}
 	if (dt->any) {
-		jmp = mkexpr(dt->loc, Ojmp, dt->any->lbl, NULL);
+		jmp = mkexpr(dt->loc, Ojmp, any, NULL);
 		jmp->expr.type = mktype(dt->loc, Tyvoid);
 		lappend(out, nout, jmp);
+		if (any != dt->any->lbl)
+			lappend(out, nout, any);
 		genmatchcode(dt->any, out, nout);
 	}
 }
-- 
2.43.0


From 27c9249a1d7445a92ecffacd5152f24284f26ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 013/129] fix: keep the side effects of an operand multiplied
 by zero

---
 parse/fold.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parse/fold.c b/parse/fold.c
index 2dc4b8b..14cc2c2 100644
--- a/parse/fold.c
+++ b/parse/fold.c
@@ -83,6 +83,13 @@ val(Srcloc loc, vlong val, Type *t)
 	return n;
 }
 
+/* can the expression be dropped without losing side effects? */
+static int
+hasnoeffect(Node *n)
+{
+	return exprop(n) == Ovar || exprop(n) == Olit;
+}
+
 static int
 issmallconst(Node *dcl)
 {
@@ -218,9 +225,9 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 1))
 			r = args[0];
 		/* 0 * x = 0 */
-		if (isintval(args[0], 0))
+		if (isintval(args[0], 0) && hasnoeffect(args[1]))
 			r = args[0];
-		if (isintval(args[1], 0))
+		if (isintval(args[1], 0) && hasnoeffect(args[0]))
 			r = args[1];
 		if (getintlit(args[0], &a) && getintlit(args[1], &b))
 			r = val(n->loc, a * b, exprtype(n));
@@ -249,7 +256,7 @@ fold(Node *n, int foldvar)
 		if (isintval(args[1], 0))
 			fatal(args[1], "division by zero");
 		/* x%1 = 0 */
-		if (isintval(args[1], 1))
+		if (isintval(args[1], 1) && hasnoeffect(args[0]))
 			r = val(n->loc, 0, exprtype(n));
 		if (getintlit(args[0], &a) && getintlit(args[1], &b)) {
 			if (isu64(exprtype(n)))
-- 
2.43.0


From f00ae34e2f25801d51dc490d6b751002380b98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 014/129] fix: do not swallow a byte that does not continue a
 UTF-8 sequence

---
 lib/std/utf.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/utf.myr b/lib/std/utf.myr
index b5244c1..e69ded6 100644
--- a/lib/std/utf.myr
+++ b/lib/std/utf.myr
@@ -130,6 +130,10 @@ const charstep = {str
 	chr = (c : uint32) & mask
 	for var i = 1; i < len; i++
 		tmp = (str[i] : uint32)
+		if tmp & 0xc0 != 0x80
+			/* not a continuation byte: don't swallow it */
+			-> (Badchar, str[1:])
+		;;
 		chr = (chr << 6) | (tmp & 0x3f)
 	;;
 
-- 
2.43.0


From 68c5fcb9f2cd30ebaa90da5cac09f69e43b22457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 015/129] fix: format the smallest int64 with the requested
 base and padding

---
 lib/std/intfmt.myr | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/lib/std/intfmt.myr b/lib/std/intfmt.myr
index 7b9cfdf..a56dd8f 100644
--- a/lib/std/intfmt.myr
+++ b/lib/std/intfmt.myr
@@ -29,12 +29,6 @@ const intfmt = {sb : strbuf#, opts : intparams, signed : bool, bits : uint64, nb
 		sval = -(bits : int64)
 		val = (sval : uint64)
 		isneg = true
-
-		/* if its negative after inverting, we have int64 min */
-		if sval < 0
-			std.sbputs(sb, "-9223372036854775808")
-			-> void
-		;;
 	else
 		val = (bits : uint64)
 		val &= ~0 >> nbits
-- 
2.43.0


From 7511a8b74433251adba0a7be4bea509f52863e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 016/129] fix: format network addresses into the given buffer

---
 lib/std/fmtfuncs.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/fmtfuncs.myr b/lib/std/fmtfuncs.myr
index 545506a..74bea94 100644
--- a/lib/std/fmtfuncs.myr
+++ b/lib/std/fmtfuncs.myr
@@ -67,11 +67,11 @@ const ipfmt = {sb, ap, opts
 	ip = std.vanext(ap)
 	match ip
 	| `Ipv4 a:
-		std.put("{}.{}.{}.{}", a[0], a[1], a[2], a[3])
+		sbfmt(sb, "{}.{}.{}.{}", a[0], a[1], a[2], a[3])
 	| `Ipv6 a:	
 		sep = ""
 		for var i = 0; i < 16; i += 2
-			std.put("{}{w=2,p=0,x}{w=2,p=0,x}", sep, a[i+0], a[i+1])
+			sbfmt(sb, "{}{w=2,p=0,x}{w=2,p=0,x}", sep, a[i+0], a[i+1])
 			sep = ":"
 		;;
 	;;
-- 
2.43.0


From 9c06554225ed7b0eb4ab3b00389d4bf3fb482707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 017/129] fix: report the real size of bool and function values

---
 lib/std/introspect.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/introspect.myr b/lib/std/introspect.myr
index 5198aeb..a888edb 100644
--- a/lib/std/introspect.myr
+++ b/lib/std/introspect.myr
@@ -268,7 +268,7 @@ const typeinfo = {ti
 	match ti[0]
 	| Encnone:	-> [.size=0, .align=1]
 	| Encvoid:	-> [.size=0, .align=1]
-	| Encbool:	-> [.size=0, .align=1]
+	| Encbool:	-> [.size=1, .align=1]
 	| Encchar:	-> [.size=4, .align=4]
 
 	| Encint8:	-> [.size=1, .align=1]
@@ -289,7 +289,7 @@ const typeinfo = {ti
 
 	/* compound types */
 	| Encptr:	-> [.size=8, .align=8]
-	| Encfunc:	-> [.size=8, .align=8]
+	| Encfunc:	-> [.size=16, .align=8]
 	| Encslice:	-> [.size=16, .align=8]
 
 	| Encarray: 	-> gettypeinfo(ti[1:])
-- 
2.43.0


From 161e10b1ef7402ba39aff4f2862dedd6f0916cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 018/129] fix: vabytes returns the aligned value

---
 lib/std/varargs.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/varargs.myr b/lib/std/varargs.myr
index 7a5e036..47a8edb 100644
--- a/lib/std/varargs.myr
+++ b/lib/std/varargs.myr
@@ -106,7 +106,7 @@ const vabytes = {ap
 	align = (ti.align : intptr)
 	p = (ap.args + align - 1) & ~(align - 1)
 
-	sl = (ap.args : byte#)[:ti.size]
+	sl = (p : byte#)[:ti.size]
 	tcnext(&ap.tc)
 
 	ap.args = p + (ti.size : intptr)
-- 
2.43.0


From 7bea4c917351874a275c456c80a1dc7a34bb40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 019/129] fix: escape quotes and backslashes, and print ~, in
 {e} formats

---
 lib/std/fmt.myr | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index 4a70c21..6091245 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -554,19 +554,19 @@ const strfmt = {sb, str, ap, params
 		;;
 	elif esc
 		for b : str
-			if isprint(b)
-				sbputb(sb, b)
-			else
-				match (b : char)
-				| '\n':	sbputs(sb, "\\n")
-				| '\r':	sbputs(sb, "\\r")
-				| '\t':	sbputs(sb, "\\t")
-				| '\b':	sbputs(sb, "\\b")
-				| '\"':	sbputs(sb, "\\\"")
-				| '\'':	sbputs(sb, "\\\'")
-				| '\\':	sbputs(sb, "\\\\")
-				| '\0':	sbputs(sb, "\\0")
-				| _:
+			match (b : char)
+			| '\n':	sbputs(sb, "\\n")
+			| '\r':	sbputs(sb, "\\r")
+			| '\t':	sbputs(sb, "\\t")
+			| '\b':	sbputs(sb, "\\b")
+			| '\"':	sbputs(sb, "\\\"")
+			| '\'':	sbputs(sb, "\\\'")
+			| '\\':	sbputs(sb, "\\\\")
+			| '\0':	sbputs(sb, "\\0")
+			| _:
+				if isprint(b)
+					sbputb(sb, b)
+				else
 					sbputs(sb, "\\x")
 					intfmt(sb, [.padto=2, .padfill='0', .base=16], false, (b : uint64), 8)
 				;;
@@ -581,7 +581,7 @@ const strfmt = {sb, str, ap, params
 }
 
 const isprint = {b
-	-> b >= (' ' : byte) && b < ('~' : byte)
+	-> b >= (' ' : byte) && b <= ('~' : byte)
 }
 
 /* would use std.get(), but that's a dependency loop */
-- 
2.43.0


From 54e2cd7d18214eed5d859e9df64bc9722e325e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 020/129] fix: gethost16 reads two bytes

---
 lib/std/getint.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/getint.myr b/lib/std/getint.myr
index 3499c4d..146e310 100644
--- a/lib/std/getint.myr
+++ b/lib/std/getint.myr
@@ -69,7 +69,7 @@ generic getle32 = {buf -> @a :: numeric, integral @a
 generic gethost16 = {buf -> @a :: numeric,integral @a
 	var val : int16
 	iassert(buf.len >= 2, "gethost16: index out of bounds")
-	memblit((&val : byte#), (buf : byte#), 4)
+	memblit((&val : byte#), (buf : byte#), 2)
 	-> (val : @a)
 }
 
-- 
2.43.0


From bc2e0b4682302ced092bc9356fd6dfae6454570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 021/129] fix: split tokens around multi-byte spaces

---
 lib/std/strsplit.myr | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/std/strsplit.myr b/lib/std/strsplit.myr
index af34838..31eccf1 100644
--- a/lib/std/strsplit.myr
+++ b/lib/std/strsplit.myr
@@ -78,18 +78,26 @@ const bstrtok = {toks, s
 }
 
 const dostrtok = {toks, s, grow
-	var i, j
+	var i, j, c
 	var idx
 
 	i = 0
 	idx = 0
 	while i != s.len
-		while isspace(std.decode(s[i:])) && i < s.len
-			i++
+		while i < s.len
+			c = std.decode(s[i:])
+			if !isspace(c)
+				break
+			;;
+			i += charlen(c)
 		;;
 		j = i
-		while !std.isspace(std.decode(s[j:])) && j < s.len
-			j++
+		while j < s.len
+			c = std.decode(s[j:])
+			if isspace(c)
+				break
+			;;
+			j += charlen(c)
 		;;
 		if i != j
 			if grow
-- 
2.43.0


From 299525a7fc5c7541d076bcea9aac89d15cb6403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 022/129] fix: free the old memory when growing an emptied
 slice

---
 lib/std/alloc.myr | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/std/alloc.myr b/lib/std/alloc.myr
index f395e2d..f45627e 100644
--- a/lib/std/alloc.myr
+++ b/lib/std/alloc.myr
@@ -157,9 +157,7 @@ generic slgrow = {sl : @a[:]#, len
 	new = slalloc(nel)
 	n = min(len, sl#.len)
 	memblit((new : byte#), (sl# : byte#), n * sizeof(@a))
-	if sl#.len > 0
-		slfree(sl#)
-	;;
+	slfree(sl#)
 	sl# = new[:len]
 	-> sl#
 }
-- 
2.43.0


From dbc74f06c1d7bf958738ddf314ef6f16f8c4ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 023/129] fix: a number needs at least one digit

---
 lib/std/intparse.myr | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/std/intparse.myr b/lib/std/intparse.myr
index 446abc8..5cc45ef 100644
--- a/lib/std/intparse.myr
+++ b/lib/std/intparse.myr
@@ -48,10 +48,11 @@ generic intparsebase = {s, base
 }
 
 generic doparse = {s, isneg, base ->  option(@a) :: integral,numeric @a
-	var v
+	var v, nd
 	var cv : int32
 	
 	v = 0
+	nd = 0
 	for c : std.bychar(s)
 		if c == '_'
 			continue
@@ -60,11 +61,15 @@ generic doparse = {s, isneg, base ->  option(@a) :: integral,numeric @a
 		if cv >= 0
 			v *= (base : @a)
 			v += (cv : @a)
+			nd++
 		else
 			-> `None
 		;;
 	;;
 
+	if nd == 0
+		-> `None
+	;;
 	if isneg
 		-> `Some -v
 	else
-- 
2.43.0


From 8a54a37112b2d6f4731be0351c21eb1b15abcdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 024/129] fix: bsintersect removes the elements past the end of
 the other set

---
 lib/std/bitset.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/std/bitset.myr b/lib/std/bitset.myr
index 3d8c2ff..329d37b 100644
--- a/lib/std/bitset.myr
+++ b/lib/std/bitset.myr
@@ -126,6 +126,9 @@ const bsintersect = {a, b
 	for var i = 0; i < n; i++
 		a.bits[i] &= b.bits[i]
 	;;
+	for var i = n; i < a.bits.len; i++
+		a.bits[i] = 0
+	;;
 }
 
 const bsdiff = {a, b
-- 
2.43.0


From 932f15f92d9abce7c5b7690e6b8ed7dbfdd03d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 025/129] fix: htput replaces a key stored behind a deleted one

---
 lib/std/htab.myr | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/std/htab.myr b/lib/std/htab.myr
index 9c00da5..ac350aa 100644
--- a/lib/std/htab.myr
+++ b/lib/std/htab.myr
@@ -137,15 +137,20 @@ generic htput = {ht, k, v
 	h = xhash(k)
 	i = h & (ht.keys.len - 1)
 	found = false
-	while ht.hashes[i] != 0 && !ht.dead[i]
-		if ht.hashes[i] == h &&	eq(ht.keys[i], k)
-			found = true
-			break
+	match idx(ht, k)
+	| `Some j:
+		i = (j : uint64)
+		found = true
+	| `None:
+		while ht.hashes[i] != 0 && !ht.dead[i]
+			di++
+			i = (h + di) & (ht.keys.len - 1)
 		;;
-		di++
-		i = (h + di) & (ht.keys.len - 1)
 	;;
 	if !found
+		if ht.dead[i]
+			ht.ndead--
+		;;
 		ht.keys[i] = k
 		ht.nelt++
 	;;
-- 
2.43.0


From f8c9d69cc0fa196fc415ceab09f730cd09183fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 026/129] fix: accept exactly the valid IP addresses

---
 lib/std/ipparse.myr | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/std/ipparse.myr b/lib/std/ipparse.myr
index f8bba34..2e27a55 100644
--- a/lib/std/ipparse.myr
+++ b/lib/std/ipparse.myr
@@ -64,14 +64,15 @@ const ip6parse = {ip
 	expand = false
 	segsplit = 0
 
-	if ip.len > 2 && eq(ip[:2], "::")
+	if ip.len >= 2 && eq(ip[:2], "::")
 		expand = true
+		ip = ip[2:]
 	;;
 
 	nseg = 0
 	for var i = 0; ip.len > 0 && ok; i++
 		/* parse 'num' segment */
-		(v, ip, ok) = num(ip, 0, 65536, 16, ':', ok)
+		(v, ip, ok) = num(ip, 0, 65535, 16, ':', ok)
 
 		/* pack it into the bytes */
 		val[i*2] = ((v & 0xff00) >> 8 : byte)
@@ -88,13 +89,16 @@ const ip6parse = {ip
 			(ip, ok) = delim(ip, ':', ok)
 			expand = true
 			segsplit = nseg
+		elif ip.len == 0
+			/* trailing ':' */
+			ok = false
 		;;
 	;;
 
 	if ok && ip.len == 0
-		if expand
+		if expand && nseg < ipv6seg
 			expandsplit(val[:], nseg, segsplit)
-		elif nseg != ipv6seg
+		elif expand || nseg != ipv6seg
 			-> `None
 		;;
 		-> `Some `Ipv6 val
@@ -137,6 +141,15 @@ generic num = {ip, lo, hi, base, sep, ok -> (@a, byte[:], bool) :: numeric,integ
 			break
 		;;
 	;;
+	/* only digits, and too few of them to overflow */
+	if len > 4
+		-> (0, "", false)
+	;;
+	for var i = 0; i < len; i++
+		if (charval((ip[i] : char), base) : int) < 0
+			-> (0, "", false)
+		;;
+	;;
 	match intparsebase(ip[:len], base)
 	| `std.Some v:
 		if v < lo || v > hi
-- 
2.43.0


From a5a8186de97e9273531f1ce72b374f70f1638233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 027/129] fix: do not decode overlong UTF-8 sequences

---
 lib/std/utf.myr | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/std/utf.myr b/lib/std/utf.myr
index e69ded6..763ee91 100644
--- a/lib/std/utf.myr
+++ b/lib/std/utf.myr
@@ -136,6 +136,10 @@ const charstep = {str
 		;;
 		chr = (chr << 6) | (tmp & 0x3f)
 	;;
+	if charlen((chr : char)) != (len : size)
+		/* overlong encoding */
+		-> (Badchar, str[1:])
+	;;
 
 	-> ((chr : char), str[len:])
 }
-- 
2.43.0


From a25b18b2eade39fde3793cb3f2e05325ff7d6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 028/129] fix: put the last chunk freed in a slab on its free
 list

---
 lib/std/bytealloc.myr | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/std/bytealloc.myr b/lib/std/bytealloc.myr
index 669654e..b12b99d 100644
--- a/lib/std/bytealloc.myr
+++ b/lib/std/bytealloc.myr
@@ -355,14 +355,17 @@ const bktfree = {bkt, m
 	s = (mtrunc(m, Slabsz) : slab#)
 	iassert(s.magic == 0xfee1baff1ed, "bad free")
 	c = (m : chunk#)
-	if s.nfree == 0
+	c.next = s.freehd
+	s.freehd = c
+	s.nfree++
+	if s.nfree == 1
 		if bkt.slabs != Zslab
 			bkt.slabs.prev = s
 		;;
 		s.next = bkt.slabs
 		s.prev = Zslab
 		bkt.slabs = s
-	elif s.nfree == bkt.nper - 1
+	elif s.nfree == bkt.nper
 		/* unlink the slab from the list */
 		if s.next != Zslab
 			s.next.prev = s.prev
@@ -387,11 +390,7 @@ const bktfree = {bkt, m
 			 so we need to unmap the same */
 			freemem(s.head, Slabsz*2)
 		;;
-		-> void
 	;;
-	s.nfree++
-	c.next = s.freehd
-	s.freehd = c
 }
 
 /*
-- 
2.43.0


From c70eb490825c2a86bf89fca575c115189ca0f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 029/129] fix: make bigints of the smallest narrow integers

---
 lib/std/bigint.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index ee82e7b..b62ba55 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -101,13 +101,13 @@ generic mkbigint = {v : @a :: integral,numeric @a
 
 	a = zalloc()
 
+	val = (v : uint64)
 	if v < 0
 		a.sign = -1
-		v = -v
+		val = -val
 	elif v > 0
 		a.sign = 1
 	;;
-	val = (v : uint64)
 	slpush(&a.dig, (val : uint32))
 	if val >= Base
 		slpush(&a.dig, (val/Base : uint32))
-- 
2.43.0


From ecc9a75d9e8d43a819c1e40174b5b4596f97557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 030/129] fix: bigfrombytes uses every byte

---
 lib/std/bigint.myr | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index b62ba55..7c19cf3 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -127,15 +127,15 @@ const bigfrombytes = {isneg, v
 
 	for i = 0; i + 4 <= v.len; i += 4
 		slpush(&a.dig, \
-			(v[i + 0] <<  0 : uint32) | \
-			(v[i + 1] <<  8 : uint32) | \
-			(v[i + 2] << 16 : uint32) | \
-			(v[i + 3] << 24 : uint32))
+			((v[i + 0] : uint32) <<  0) | \
+			((v[i + 1] : uint32) <<  8) | \
+			((v[i + 2] : uint32) << 16) | \
+			((v[i + 3] : uint32) << 24))
 	;;
 	last = 0
 	for i; i < v.len; i++
 		off = i & 0x3
-		last |= (v[off] : uint32) << (8 *off)
+		last |= (v[i] : uint32) << (8 *off)
 	;;
 	slpush(&a.dig, last)
 	-> trim(a)
-- 
2.43.0


From 4803fef9544667f8af4f8e439e06ea5e9a0101bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 031/129] fix: trim the low halves in karatsuba multiplication

---
 lib/std/bigint.myr | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index 7c19cf3..dfa7e8a 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -588,6 +588,8 @@ const kmul = {r, a, b
 	x1 = [.sign=1, .dig=a.dig[n:]]
 	y0 = [.sign=1, .dig=b.dig[:n]]
 	y1 = [.sign=1, .dig=b.dig[n:]]
+	trim(&x0)
+	trim(&y0)
 
 	z0 = bigdup(&x0)
 	trim(z0)
-- 
2.43.0


From 31b64a31cf2ec1bf9f0e9986e92dbe38cf2b1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 032/129] fix: the remainder of a small division has the sign
 of the dividend

---
 lib/std/bigint.myr | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index dfa7e8a..dd28015 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -679,7 +679,7 @@ const bigdivmod = {a : bigint#, b : bigint# -> (bigint#, bigint#)
 	var b0, aj
 	var u, v
 	var i, j : int64
-	var q
+	var q, r
 
 	if bigiszero(b)
 		die("divide by zero\n")
@@ -707,7 +707,11 @@ const bigdivmod = {a : bigint#, b : bigint# -> (bigint#, bigint#)
 			carry = (carry << 32) + aj - (q.dig[j-1] : uint64)*b0
 		;;
 		q = trim(q)
-		-> (q, trim(mkbigint(carry)))
+		r = mkbigint(carry)
+		if carry != 0
+			r.sign = a.sign
+		;;
+		-> (q, r)
 	;;
 
 	u = bigdup(a)
-- 
2.43.0


From bbf5cd67e9d2b5f78c3aa91e836017c7caf2d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 033/129] fix: bigand does not resize its second operand

---
 lib/std/bigint.myr | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index dd28015..e5bf4af 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -781,12 +781,9 @@ const bigdivmod = {a : bigint#, b : bigint# -> (bigint#, bigint#)
 }
 
 const bigand = {a, b
-   if a.dig.len > b.dig.len
-      slzgrow(&b.dig, a.dig.len)
-   ;;
-   if b.dig.len > a.dig.len
-      slzgrow(&a.dig, b.dig.len)
-   ;;
+	if a.dig.len > b.dig.len
+		a.dig = a.dig[:b.dig.len]
+	;;
 	for var i = 0; i < a.dig.len; i++
 		a.dig[i] &= b.dig[i]
 	;;
-- 
2.43.0


From 7b929cdf1b7efec9d3aea9fb8f73fc3d3548cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 034/129] fix: bigor into zero is not zero

---
 lib/std/bigint.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index e5bf4af..880683e 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -791,6 +791,9 @@ const bigand = {a, b
 }
 
 const bigor = {a, b
+	if a.sign == 0
+		a.sign = b.sign
+	;;
 	slzgrow(&a.dig, max(a.dig.len, b.dig.len))
 	for var i = 0; i < min(a.dig.len, b.dig.len); i++
 		a.dig[i] |= b.dig[i]
-- 
2.43.0


From 511017f55fc0eddf12cdec069b2f9b67a9a85548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 035/129] fix: bigmodpow keeps the exponent, and works modulo
 one

---
 lib/std/bigint.myr | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/std/bigint.myr b/lib/std/bigint.myr
index 880683e..d3424b2 100644
--- a/lib/std/bigint.myr
+++ b/lib/std/bigint.myr
@@ -803,19 +803,21 @@ const bigor = {a, b
 
 /* computes b^e % m */
 const bigmodpow = {base, exp, mod
-	var r, n
+	var r, e
 
 	r = mkbigint(1)
-	n = 0
-	while !bigiszero(exp)
-		if (exp.dig[0] & 1) != 0
+	e = bigdup(exp)
+	bigmod(r, mod)
+	while !bigiszero(e)
+		if (e.dig[0] & 1) != 0
 			bigmul(r, base)
 			bigmod(r, mod)
 		;;
-		bigshri(exp, 1)
+		bigshri(e, 1)
 		bigmul(base, base)
 		bigmod(base, mod)
 	;;
+	bigfree(e)
 	-> bigsteal(base, r)
 }
 
-- 
2.43.0


From 02503361b770f31d0c5131f02e34ab627ab761cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 036/129] fix: rngrandbytes fills the whole buffer with random
 bytes

---
 lib/std/rand.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/rand.myr b/lib/std/rand.myr
index 9cea564..937ed2b 100644
--- a/lib/std/rand.myr
+++ b/lib/std/rand.myr
@@ -71,7 +71,7 @@ const rngrandbytes = {rng, buf
 	var n, r : uint64
 
 	n = 0
-	for var i = 0; i + 8 < buf.len/8; i++
+	for var i = 0; i < buf.len/8; i++
 		r = rngrandnum(rng)
 		putle64(buf[n:n+8], r)
 		n += 8
-- 
2.43.0


From 6aecc6bb808ed0bc64a9f8f10bcb48d54f14602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 037/129] fix: use the whole seed of a random number generator,
 and never start from all zeros

---
 lib/std/rand.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/rand.myr b/lib/std/rand.myr
index 937ed2b..10c6ba1 100644
--- a/lib/std/rand.myr
+++ b/lib/std/rand.myr
@@ -41,7 +41,7 @@ const __init__ = {
 const mksrng = {seed : uint32 -> rng#
 	-> std.mk([
 		.s0=(seed & 0xffff : uint64),
-		.s1=(seed&0xffff0000>>16 : uint64)
+		.s1=((seed >> 16) | 0x10000 : uint64)
 	])
 }
 
-- 
2.43.0


From de2c29b95337788a22b61d618b69863926542f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 038/129] fix: reject every random number past the last full
 span

---
 lib/std/rand.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/rand.myr b/lib/std/rand.myr
index 10c6ba1..a354c3d 100644
--- a/lib/std/rand.myr
+++ b/lib/std/rand.myr
@@ -61,7 +61,7 @@ generic rngrand = {rng, lo, hi
 	
 	lim = (max/span)*span
 	val = (rngrandnum(rng) & max)
-	while val > lim
+	while val >= lim
 	        val = (rngrandnum(rng) & max)
 	;;
 	-> val % span + lo
-- 
2.43.0


From 282de1c286fe34b4f7fef828c207421ffdf5b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 039/129] fix: an optional option argument may be missing at
 the end

---
 lib/std/optparse.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/std/optparse.myr b/lib/std/optparse.myr
index ec6c59d..ed9489b 100644
--- a/lib/std/optparse.myr
+++ b/lib/std/optparse.myr
@@ -133,6 +133,9 @@ const optnext = {ctx
 			put("Expected argument for '{}'\n", c)
 			optusage(ctx.optargs[0], ctx.optdef)
 			exit(1)
+		else
+			arg = ""
+			next(ctx)
 		;;
 		match dest
 		| `std.Some d:	d# = arg
-- 
2.43.0


From a9a2ed5e7544c8b90b3adfa1f639cd35fdd77d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 040/129] fix: round denormals to the nearest in flt64assem and
 flt32assem

---
 lib/std/fltbits.myr | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/std/fltbits.myr b/lib/std/fltbits.myr
index 63f384e..3642030 100644
--- a/lib/std/fltbits.myr
+++ b/lib/std/fltbits.myr
@@ -65,9 +65,13 @@ const flt64assem = {sign, exp, mant
 	if exp <= -Dblbias && (mant & (1ul << 52) != 0)
 		var roundup = false
 		var shift : uint64 = ((1 - Dblbias - exp) : uint64)
-		var firstcut = mant & (1 << shift)
-		var restcut = mant & ((1 << shift) - 1)
-		var lastkept = mant & (1 << (shift + 1))
+		/* everything but the rounding is lost past the last bit */
+		if shift > 54
+			shift = 54
+		;;
+		var firstcut = mant & (1 << (shift - 1))
+		var restcut = mant & ((1 << (shift - 1)) - 1)
+		var lastkept = mant & (1 << shift)
 		roundup = firstcut != 0 && (lastkept != 0 || restcut != 0)
 		mant >>= shift
 		exp = -Dblbias
@@ -91,9 +95,13 @@ const flt32assem = {sign, exp, mant
 	if exp <= -Fltbias && (mant & (1 << 23) != 0)
 		var roundup = false
 		var shift : uint32 = ((1 - Fltbias - exp) : uint32)
-		var firstcut = mant & (1 << shift)
-		var restcut = mant & ((1 << shift) - 1)
-		var lastkept = mant & (1 << (shift + 1))
+		/* everything but the rounding is lost past the last bit */
+		if shift > 25
+			shift = 25
+		;;
+		var firstcut = mant & (1 << (shift - 1))
+		var restcut = mant & ((1 << (shift - 1)) - 1)
+		var lastkept = mant & (1 << shift)
 		roundup = firstcut != 0 && (lastkept != 0 || restcut != 0)
 		mant >>= shift
 		exp = -Fltbias
-- 
2.43.0


From e9865ca777d98ea8d82fb3201e04bb0d29d7ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 041/129] fix: the significand of a parsed float is below its
 limit

---
 lib/std/fltparse.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index 8214f14..4238a21 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -186,9 +186,9 @@ const fallback = {mant, exp, lim
 		std.bigsteal(x, xprime)
 		std.bigsteal(r, rprime)
 		if k == lim.minexp 
-			if std.biggei(x, lim.minsig) && std.biglei(x, lim.maxsig)
+			if std.biggei(x, lim.minsig) && std.biglti(x, lim.maxsig)
 				break
-			else
+			elif std.biglti(x, lim.minsig)
 				f = denormal(x, v, r, lim)
 				goto done
 			;;
@@ -199,7 +199,7 @@ const fallback = {mant, exp, lim
 		if std.biglti(x, lim.minsig)
 			std.bigmuli(u, 2)
 			k--
-		elif std.biggti(x, lim.maxsig)
+		elif std.biggei(x, lim.maxsig)
 			std.bigmuli(v, 2)
 			k++
 		else
-- 
2.43.0


From 4d87019cdf9404eb4e8bf69db6995be042a6c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 042/129] fix: carry into the exponent when rounding up a
 parsed float

---
 lib/std/fltparse.myr | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index 4238a21..8cc15d9 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -261,18 +261,8 @@ const assemble = {u, v, r, k, lim
 }
 
 const nextfloat = {z, lim
-	var sign, mant, exp
-	var za
-
-	(sign, exp, mant) = std.flt64explode(z)
-	if std.abs((mant : int64) - (1l << 52) - 1) < (lim.nextinc : int64)
-		mant = 0
-		exp++
-	else
-		mant += lim.nextinc
-	;;
-	za = std.flt64assem(sign, exp, mant)
-	-> za
+	/* a carry out of the significand increments the exponent */
+	-> std.flt64frombits(std.flt64bits(z) + lim.nextinc)
 }
 
 const mulexp = {val, exp, pow
-- 
2.43.0


From a2a3e5c073a57787f2e4363b1d0a82eb18f43c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 043/129] fix: parse single precision floats with 24 bits, and
 denormals exactly

---
 lib/std/fltparse.myr | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index 8cc15d9..a33509c 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -124,8 +124,8 @@ const fltchar = {c
 type lim = struct
 	minsig	: uint64
 	maxsig	: uint64
-	loshift	: uint64
 	nextinc	: uint64
+	tiny	: flt64
 	minexp	: int16
 	maxexp	: int16
 	sigbits	: int16
@@ -138,17 +138,17 @@ const lim64 : lim = [
 	.maxexp=1023 - 52,
 	.sigbits=53,
 	.nextinc=1,
-	.loshift=0
+	.tiny=4.9406564584124654418e-324
 ]
 
 const lim32 : lim = [
-	.minsig=0x400000,
-	.maxsig=0x800000,
-	.minexp=-126-22,
-	.maxexp=127-22,
-	.sigbits=22,
+	.minsig=0x800000,
+	.maxsig=0x1000000,
+	.minexp=-126-23,
+	.maxexp=127-23,
+	.sigbits=24,
 	.nextinc=0x20000000,
-	.loshift=30
+	.tiny=1.4012984643248170709e-45
 ]
 
 const toflt = {sign, mant, exp, lim
@@ -273,7 +273,7 @@ const mulexp = {val, exp, pow
 }
 
 const denormal = {x, v, rem, lim
-	var m, z
+	var m
 
 	if x.dig.len == 0
 		m = 0
@@ -281,19 +281,17 @@ const denormal = {x, v, rem, lim
 		m = (x.dig[0] : uint64) 
 		m |= (x.dig[1] : uint64) << 32
 	else
-		m = (x.dig[0] : uint64) << lim.loshift
+		m = (x.dig[0] : uint64)
 	;;
-	z = std.flt64frombits(m)
 
+	/* round to nearest, ties to even */
+	std.bigshli(rem, 1)
 	match std.bigcmp(rem, v)
 	| `std.Before:	/* nothing */
-	| `std.After:	z = nextfloat(z, lim)
-	| `std.Equal:
-		if !std.bigiseven(x)
-			z = nextfloat(z, lim)
-		;;
+	| `std.After:	m++
+	| `std.Equal:	m += m & 1
 	;;
-	-> z
+	-> (m : flt64) * lim.tiny
 }
 
 const mkflt = {mant, exp
@@ -303,9 +301,9 @@ const mkflt = {mant, exp
 		m = (mant.dig[0] : uint64) 
 		m |= (mant.dig[1] : uint64) << 32
 	else
-		/* flt32: 2^22..2^23, so adjust into flt64 range */
-		m = (mant.dig[0] : uint64) << 30
-		exp -= 30
+		/* flt32: 2^23..2^24, so adjust into flt64 range */
+		m = (mant.dig[0] : uint64) << 29
+		exp -= 29
 	;;
 	m &= (1<<52) - 1
 
-- 
2.43.0


From aaa6a465001c5f853238a460fc6e21dce51b720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 044/129] fix: floats with large exponents are infinite or zero

---
 lib/std/fltparse.myr | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index a33509c..f58fe31 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -16,7 +16,7 @@ pkg std =
 ;;
 
 type parseresult = union
-	`Flt (int, std.bigint#, int16)
+	`Flt (int, std.bigint#, int)
 	`Inf int
 	`Nan int
 	`Badflt
@@ -96,11 +96,7 @@ const fltparse = {str
 	;;
 	
 	if std.hasprefix(str[i:], "e") || std.hasprefix(str[i:], "E")
-		/* intparse doesn't accept '+', so if we have 'e+', consume the '+ */
-		if std.hasprefix(str[i+1:], "+")
-			i++
-		;;
-		match std.intparsebase(str[i+1:], 10)
+		match parseexp(str[i+1:])
 		| `std.Some n:	exp += n
 		| `std.None:	goto error
 		;;
@@ -117,6 +113,33 @@ const fltparse = {str
 	-> `Badflt
 }
 
+/* The value of a decimal exponent; the largest ones are all the same. */
+const parseexp = {str -> std.option(int)
+	var sign, n, seen
+
+	sign = 1
+	if std.chomp(&str, "-")
+		sign = -1
+	else
+		std.chomp(&str, "+")
+	;;
+
+	n = 0
+	seen = false
+	for c : std.bychar(str)
+		if std.isdigit(c)
+			n = std.min(n*10 + std.charval(c, 10), 1000000)
+			seen = true
+		elif c != '_'
+			-> `std.None
+		;;
+	;;
+	if !seen
+		-> `std.None
+	;;
+	-> `std.Some (sign * n)
+}
+
 const fltchar = {c
 	-> std.isdigit(c) || c == '.' || c == '_'
 }
@@ -155,6 +178,11 @@ const toflt = {sign, mant, exp, lim
 	/* if it's all zero, just return 0 */
 	if std.bigeqi(mant, 0)
 		-> (sign : flt64) * 0.0
+	/* far out of range */
+	elif exp > 400
+		-> (sign : flt64) * std.flt64inf()
+	elif exp < -400 && -exp - 400 > (std.bigbitcount(mant) : int)
+		-> (sign : flt64) * 0.0
 	/* todo: add fast parsing for common cases */
 	else
 		-> (sign : flt64) * fallback(mant, exp, lim)
-- 
2.43.0


From d300ba7f83ff6f7ed917a8ad0986c72c2d7a64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 045/129] fix: a float needs at least one digit

---
 lib/std/fltparse.myr | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/std/fltparse.myr b/lib/std/fltparse.myr
index f58fe31..e968dfe 100644
--- a/lib/std/fltparse.myr
+++ b/lib/std/fltparse.myr
@@ -51,7 +51,7 @@ const flt32parse = {str
 }
 
 const fltparse = {str
-	var sign, exp, mant, expinc, i
+	var sign, exp, mant, expinc, i, seen
 
 	if std.chomp(&str, "-")
 		sign = -1
@@ -72,8 +72,10 @@ const fltparse = {str
 	i = 0
 	exp = 0
 	expinc = 0
+	seen = false
 	mant = std.mkbigint(0)
 	for var c = std.decode(str[i:]); c == '0'; c = std.decode(str[i:])
+		seen = true
 		i++
 	;;
 	for var c = std.decode(str[i:]); fltchar(c); c = std.decode(str[i:])
@@ -87,6 +89,7 @@ const fltparse = {str
 			;;
 			expinc = -1
 		elif std.isdigit(c)
+			seen = true
 			exp += expinc
 			std.bigmuli(mant, 10)
 			std.bigaddi(mant, std.charval(c, 10))
@@ -102,7 +105,7 @@ const fltparse = {str
 		;;
 		i = str.len
 	;;
-	if i != str.len
+	if i != str.len || !seen
 		goto error
 	;;
 
-- 
2.43.0


From 706f095fdac8f6571bfb0b3d2e6addf7ca9fe8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 046/129] fix: format powers of two with the precision of the
 float, so that they parse back

---
 lib/std/fltfmt.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/fltfmt.myr b/lib/std/fltfmt.myr
index 535f156..b0e3927 100644
--- a/lib/std/fltfmt.myr
+++ b/lib/std/fltfmt.myr
@@ -47,7 +47,7 @@ const flt64bfmt = {sb, opts, val
 	var valsb = mksb()
 
 	exp = max(exp, 1 - Dblbias)
-	dragon4(valsb, false, mant, exp - 52, Dblbias, opts.mode, -opts.cutoff, opts.scientific)
+	dragon4(valsb, false, mant, exp - 52, 53, opts.mode, -opts.cutoff, opts.scientific)
 
 	-> blobfmt(sb, sbfin(valsb), opts, isneg)
 }
@@ -68,7 +68,7 @@ const flt32bfmt = {sb, opts, val
 	var valsb = mksb()
 
 	exp = (max((exp : int64), 1 - Fltbias) : int32)
-	dragon4(valsb, false, (mant : uint64), (exp - 23 : int64), Fltbias, opts.mode, -opts.cutoff, opts.scientific)
+	dragon4(valsb, false, (mant : uint64), (exp - 23 : int64), 24, opts.mode, -opts.cutoff, opts.scientific)
 
 	-> blobfmt(sb, sbfin(valsb), opts, isneg)
 }
-- 
2.43.0


From fe17be9f5c2eb2027f8126f59b9663a736f47903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 047/129] fix: look a character up in the singlets too when a
 range precedes it

---
 lib/std/chartype.myr | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/std/chartype.myr b/lib/std/chartype.myr
index 500bee1..6cd66a0 100644
--- a/lib/std/chartype.myr
+++ b/lib/std/chartype.myr
@@ -1538,7 +1538,8 @@ const isalpha = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, ralpha1[:], ralpha1.len, 1, &l)
+	;;
+	if findc(c, ralpha1[:], ralpha1.len, 1, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1597,7 +1598,8 @@ const islower = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1613,7 +1615,8 @@ const isupper = {c
 		if (c >= l[0] && c <= l[1])
 			-> true
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l)
 		if (c == l[0])
 			-> true
 		;;
@@ -1636,7 +1639,8 @@ const tolower = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
+	;;
+	if findc(c, rtolower1[:], rtolower1.len/2, 2, &l) 
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
@@ -1651,7 +1655,8 @@ const toupper = {c
 		if c >= l[0] && c <= l[1]
 			-> c + l[2] - 500;
 		;;
-	elif findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
+	;;
+	if findc(c, rtoupper1[:], rtoupper1.len/2, 2, &l);
 		if c == l[0]
 			-> c + l[1] - 500;
 		;;
-- 
2.43.0


From 110d040950bbaf584cb02c7d19c25ea2590a9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 048/129] fix: title characters are those that are both upper
 and lower

---
 lib/std/chartype.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/chartype.myr b/lib/std/chartype.myr
index 6cd66a0..c0a7196 100644
--- a/lib/std/chartype.myr
+++ b/lib/std/chartype.myr
@@ -1625,7 +1625,7 @@ const isupper = {c
 }
 
 const istitle = {c
-	-> isupper(c) && !islower(c)
+	-> isupper(c) && islower(c)
 }
 
 const isascii = {c
-- 
2.43.0


From 6f6382f75141cf360eee90b01287e3bdb8bbfe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 049/129] fix: escape a backslash in a regex as a backslash

---
 lib/escfmt/escre.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/escfmt/escre.myr b/lib/escfmt/escre.myr
index 418b6c4..1854e7e 100644
--- a/lib/escfmt/escre.myr
+++ b/lib/escfmt/escre.myr
@@ -30,7 +30,7 @@ const refmt = {sb, ap, args
 		| '^':	std.sbputs(sb, "\\^")
 		| '$':	std.sbputs(sb, "\\$")
 		| '.':	std.sbputs(sb, "\\.")
-		| '\\':	std.sbputs(sb, "\\.")
+		| '\\':	std.sbputs(sb, "\\\\")
 		| '(':	std.sbputs(sb, "\\(")
 		| ')':	std.sbputs(sb, "\\)")
 		| _:	std.sbputc(sb, c)
-- 
2.43.0


From 7ff4c9fba84d4db3bd0e8194c4f326f32f5149db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 050/129] fix: regexes may contain characters of four bytes

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index f4eefaf..f7d9b01 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -396,7 +396,7 @@ const genchar = {re, c, ast
 	var n
 
 	n = std.encode(b[:], c)
-	std.assert(n > 0 && n < 4, "non-utf character in regex\n")
+	std.assert(n > 0 && n <= 4, "non-utf character in regex\n")
 	for var i = 0; i < n; i++
 		append(re, `Ibyte b[i], ast)
 	;;
-- 
2.43.0


From 48c22b1c8635b99be2db98929c1090ba7a62da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 051/129] fix: all metacharacters of a regex can be escaped

---
 lib/regex/compile.myr | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index f7d9b01..2cbf3ed 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -687,6 +687,11 @@ const escaped = {re
 	| '+':	ret = `Some mk(re, `Chr '+', idx)
 	| '?':	ret = `Some mk(re, `Chr '?', idx)
 	| '*':	ret = `Some mk(re, `Chr '*', idx)
+	| '|':	ret = `Some mk(re, `Chr '|', idx)
+	| '(':	ret = `Some mk(re, `Chr '(', idx)
+	| '[':	ret = `Some mk(re, `Chr '[', idx)
+	| ']':	ret = `Some mk(re, `Chr ']', idx)
+	| '\\':	ret = `Some mk(re, `Chr '\\', idx)
 
 	/* escaped nonprintable characters */
 	| 'r':	ret = `Some mk(re, `Chr '\r', idx)
-- 
2.43.0


From 7e38cdd36512b62e38b456f09534f71be0fe744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 052/129] fix: a range inside another one does not cut a
 character class short

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 2cbf3ed..02f4c0c 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -866,7 +866,7 @@ const merge = {rl
 	for r : rl[1:]
 		/* if it overlaps or abuts, merge */
 		if r[0] <= hi + 1
-			hi = r[1]
+			hi = std.max(hi, r[1])
 		else
 			std.slpush(&ret, [lo, hi])
 			lo = r[0]
-- 
2.43.0


From ee07a8fd68cf73faad435c1751893a8c606963e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 053/129] fix: negated character classes may include the first
 or last character

---
 lib/regex/compile.myr | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 02f4c0c..40e73a7 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -842,13 +842,16 @@ const negate = {rng
 
 	neg = [][:]
 	start = 0
-	next = 0 /* if we have no ranges */
 	for r : rng
 		(end, next) = (r[0], r[1])
-		std.slpush(&neg, [start, end - 1])
+		if start < end
+			std.slpush(&neg, [start, end - 1])
+		;;
 		start = next + 1
 	;;
-	std.slpush(&neg, [next + 1, std.Maxcharval])
+	if start <= std.Maxcharval
+		std.slpush(&neg, [start, std.Maxcharval])
+	;;
 	-> neg
 }
 
-- 
2.43.0


From 601d26a043d9b1ab83d1ed5109d95a57a13f7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 054/129] fix: \p{Lt} matches title case letters

---
 lib/regex/compile.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 40e73a7..b0b0cb6 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -758,7 +758,7 @@ const unicodeclass = {re, neg
 	elif std.eq(s, "Ll") || std.eq(s, "Lowercase_Letter")
 		tab = _ranges.tablower[:]
 	elif std.eq(s, "Lt") || std.eq(s, "Titlecase_Letter")
-		tab = _ranges.tablower[:]
+		tab = _ranges.tabtitle[:]
 	/* numbers (incomplete) */
 	elif std.eq(s, "N") || std.eq(s, "Number")
 		tab = _ranges.tabdigit[:]
-- 
2.43.0


From 4aaad4c8541b9b19ecf8d942fc5f51353dc0fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 055/129] fix: do not read past the end of an unfinished
 character class

---
 lib/regex/compile.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index b0b0cb6..5cd517c 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -894,6 +894,9 @@ const matchc = {re, c
 const getc = {re
 	var c
 
+	if re.idx == re.pat.len
+		-> std.Badchar
+	;;
 	c = std.decode(re.pat[re.idx:])
 	re.idx += std.charlen(c)
 	-> c
-- 
2.43.0


From 29e507c3aa7caea12b2cc94497aa48b2c9a462b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 056/129] fix: reject regexes with invalid characters instead
 of aborting

---
 lib/regex/compile.myr | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 5cd517c..da8c5b7 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -511,6 +511,11 @@ const dump = {re, t, indent
 
 /* parses an expression */
 const regexparse = {re
+	for c : std.bychar(re.pat)
+		if c == std.Badchar
+			-> `Err `Incomplete
+		;;
+	;;
 	match altexpr(re)
 	| `Some t:
 		if re.pat.len == re.idx
@@ -715,6 +720,9 @@ const unichar = {re, idx
 	while std.isxdigit(peekc(re))
 		c *= 16
 		c += std.charval(getc(re), 16)
+		if c > std.Maxcharval
+			-> `Err `Badescape 'u'
+		;;
 	;;
 	if !matchc(re, '}')
 		-> `Err `Badescape 'u'
-- 
2.43.0


From 9c86b324d796d78bd64f8bc5bb6bbe76d500ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 057/129] fix: character ranges match exactly the characters
 between their bounds

---
 lib/regex/compile.myr | 63 ++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index da8c5b7..922eed3 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -163,28 +163,12 @@ const gen = {re, t
 }
 
 const genranges = {re, sl, ast
-	var lbuf : byte[4], hbuf : byte[4], boundbuf : byte[4]
-	var lsz, hsz, bsz, i
 	var rt : rangetrie#
 
 	/* generate a trie of ranges */
 	rt = std.zalloc()
 	for r : sl
-		/* 
-		encode:
-			lo => bounds[loidx] - 1
-			bounds[loidx] => bounds[loidx + 1] - 1
-			...
-			bounds[hiidx - 1] => hi
-		*/
-		lsz = std.encode(lbuf[:], r[0])
-		hsz = std.encode(hbuf[:], r[1])
-		for i = lsz; i < hsz; i++
-			bsz = bound(boundbuf[:], i, 0xff)
-			rtinsert(rt, lbuf[:lsz], boundbuf[:bsz])
-			lsz = bound(lbuf[:], i + 1, 0x00)
-		;;
-		rtinsert(rt, lbuf[:lsz], hbuf[:hsz])
+		rtrange(rt, r[0], r[1])
 	;;
 	if re.trace
 		rtdump(rt, 0)
@@ -194,19 +178,42 @@ const genranges = {re, sl, ast
 	-> re.proglen
 }
 
-const bound = {buf, len, fill
-	var s
-
-	if len == 1
-		buf[0] = 0x7f
-	else
-		s = (len : byte)
-		buf[0] = (0xff << (8 - s)) | (fill >> (s + 1))
-		for var i = 1; i < len; i++
-			buf[i] = 0x80 | (fill >> 2)
+/*
+ splits a range of characters into ranges which, when encoded,
+ have any combination of bytes between those of the bounds.
+*/
+const rtrange = {rt, lo, hi
+	var lbuf : byte[4], hbuf : byte[4]
+	var lsz, hsz, m
+
+	/* the same encoded length */
+	for max : [0x7f, 0x7ff, 0xffff][:]
+		if lo <= max && hi > max
+			rtrange(rt, lo, max)
+			rtrange(rt, max + 1, hi)
+			-> void
+		;;
+	;;
+	if hi > 0x7f
+		/* after the first differing byte, all continuation bytes */
+		for var i = 1; i < 4; i++
+			m = (1 << (6 * i)) - 1
+			if lo & ~m != hi & ~m
+				if lo & m != 0
+					rtrange(rt, lo, lo | m)
+					rtrange(rt, (lo | m) + 1, hi)
+					-> void
+				elif hi & m != m
+					rtrange(rt, lo, (hi & ~m) - 1)
+					rtrange(rt, hi & ~m, hi)
+					-> void
+				;;
+			;;
 		;;
 	;;
-	-> len
+	lsz = std.encode(lbuf[:], lo)
+	hsz = std.encode(hbuf[:], hi)
+	rtinsert(rt, lbuf[:lsz], hbuf[:hsz])
 }
 
 type rangetrie = struct
-- 
2.43.0


From 27df90d772789f315d16b514e0e94114c27372c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 058/129] fix: groups that did not take part in a match are
 empty

---
 lib/regex/interp.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 0ec7b29..e2534c2 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -148,7 +148,7 @@ const getmatches = {re, thr
 	;;
 
 	i = 0
-	ret = std.slalloc(re.nmatch)
+	ret = std.slzalloc(re.nmatch)
 	for [lo, hi] : thr.mgroup[:re.nmatch]
 		if lo != -1 && hi != -1
 			ret[i] = re.str[lo : hi]
-- 
2.43.0


From 6e51e6fe3edbca44fe6c55ba9f98b9764c0d72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 059/129] fix: step back by one character in a word boundary

---
 lib/regex/interp.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index e2534c2..a7390c7 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -488,7 +488,7 @@ const itrace = {re, thr, inst
 const prevchar = {s, i
 	std.assert(i != 0, "prevchar must be called with i >= 1\n")
 	i--
-	while i != 0 && s[i] >= 0x80
+	while i != 0 && s[i] & 0xc0 == 0x80
 		i--
 	;;
 	-> s[i:]
-- 
2.43.0


From 67558635bda02c94737b60c944e64d83cfd72ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 060/129] fix: searching sees the text before the match, and
 the end of the string; substituting ends on empty matches and leaves no
 threads behind

---
 lib/regex/interp.myr | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index a7390c7..1acbbb0 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -39,8 +39,8 @@ const iexec = {re, str
 const search = {re, str
 	var thr = Zthr
 
-	for var i = 0; i < str.len; i++
-		thr = run(re, str[i:], 0, false)
+	for var i = 0; i <= str.len; i++
+		thr = run(re, str, i, false)
 		if thr != Zthr
 			break
 		;;
@@ -51,8 +51,8 @@ const search = {re, str
 const isearch = {re, str
 	var thr = Zthr
 
-	for var i = 0; i < str.len; i++
-		thr = run(re, str[i:], 0, false)
+	for var i = 0; i <= str.len; i++
+		thr = run(re, str, i, false)
 		if thr != Zthr
 			break
 		;;
@@ -72,7 +72,12 @@ const sub = {re, str, subst
 
 const sbsub = {sb, re, str, subst
 	std.assert(re.nmatch == subst.len + 1, "substitution length does not match capture count")
-	-> dosubst(sb, re, run(re, str, 0, true), str, subst)
+	var thr, ok
+
+	thr = run(re, str, 0, true)
+	ok = dosubst(sb, re, thr, str, 0, str.len, subst)
+	cleanup(re, thr)
+	-> ok
 }
 
 const suball = {re, str, subst
@@ -84,32 +89,37 @@ const suball = {re, str, subst
 }
 
 const sbsuball = {sb, re, str, subst
-	var thr, len, i
+	var thr, end, i
 
 	std.assert(re.nmatch == subst.len + 1, "substitution length does not match capture count")
 	i = 0
 	while i < str.len
-		thr = run(re, str[i:], 0, false)
+		thr = run(re, str, i, false)
 		if thr == Zthr
 			std.sbputb(sb, str[i])
 			i++
 		else
-			len = thr.mgroup[0][1]
-			dosubst(sb, re, thr, str[i:len + i], subst)
-			i += len
+			end = thr.mgroup[0][1]
+			dosubst(sb, re, thr, str, i, end, subst)
+			if end == i
+				/* an empty match */
+				std.sbputb(sb, str[i])
+				end++
+			;;
+			i = end
 		;;
 		cleanup(re, thr)
 	;;
 }
 
 
-const dosubst = {sb, re, thr, str, subst
+const dosubst = {sb, re, thr, str, start, end, subst
 	var off
 
 	if thr == Zthr
 		-> false
 	;;
-	off = 0
+	off = start
 	for var i = 1; i < re.nmatch; i++
 		if thr.mgroup[i][0] != -1 && thr.mgroup[i][1] != -1
 			std.sbputs(sb, str[off:thr.mgroup[i][0]])
@@ -117,7 +127,7 @@ const dosubst = {sb, re, thr, str, subst
 			off = thr.mgroup[i][1]
 		;;
 	;;
-	std.sbputs(sb, str[off:])
+	std.sbputs(sb, str[off:end])
 	-> true
 }
 
@@ -188,7 +198,7 @@ const run = {re, str, idx, wholestr
 	var ip
 
 	re.str = str
-	re.strp = 0
+	re.strp = idx
 	re.nexttid = 0
 
 	bestmatch = Zthr
-- 
2.43.0


From 06acd8f9b712a8c499f49e9f50ea97e1a2f1080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 061/129] fix: repetitions of empty matches end

---
 lib/regex/interp.myr | 51 ++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index 1acbbb0..d772b70 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -195,7 +195,6 @@ const run = {re, str, idx, wholestr
 	var consumed
 	var states
 	var thr
-	var ip
 
 	re.str = str
 	re.strp = idx
@@ -231,7 +230,6 @@ const run = {re, str, idx, wholestr
 			thr = re.runq
 			re.runq = thr.next
 
-			ip = thr.ip
 			/* 
 			  Stepping continues until the first
 			  non-consuming operator is seen. This
@@ -241,23 +239,27 @@ const run = {re, str, idx, wholestr
 			  threads have seen what they need
 			  to, and we can terminate them.
 			 */
-			consumed = step(re, thr, -1)
+			consumed = false
 			while !consumed
-				consumed = step(re, thr, ip)
-			;;
-
-			/*
-			 * Because threads have no memory,
-			 * their ip (and current input
-			 * character, which is the same
-			 * thanks to the above mentioned
-			 * lockstep) uniquely identify them.
-			 * As a result, if we have two
-			 * threads with the same ip, one of
-			 * them can be culled.
-			 */
-			if std.bshas(states, thr.ip)
-				die(re, thr)
+				/*
+				 * Because threads have no memory,
+				 * their ip (and current input
+				 * character, which is the same
+				 * thanks to the above mentioned
+				 * lockstep) uniquely identify them.
+				 * As a result, if we have two
+				 * threads with the same ip, the
+				 * later one can be culled. This
+				 * also ends repetitions of empty
+				 * matches.
+				 */
+				if std.bshas(states, thr.ip)
+					die(re, thr)
+					consumed = true
+				else
+					std.bsput(states, thr.ip)
+					consumed = step(re, thr)
+				;;
 			;;
 
 			if thr.dead
@@ -276,7 +278,6 @@ const run = {re, str, idx, wholestr
 					thrfree(re, thr)
 				;;
 			elif !thr.matched
-				std.bsput(states, thr.ip)
 				if re.expired == Zthr
 					re.expired = thr
 				;;
@@ -319,7 +320,7 @@ const run = {re, str, idx, wholestr
  * operating over the same characters, and finishing
  * at the same time.
  */
-const step = {re, thr, curip
+const step = {re, thr
 	var str, nthr, inst
 
 	str = re.str
@@ -353,12 +354,10 @@ const step = {re, thr, curip
 	| OpFork:
 		var lip = ((inst >>  4) & 0x3fffffff : std.size)
 		var rip = ((inst >> 34) & 0x3fffffff : std.size)
-		if rip != curip
-			nthr = mkthread(re, rip)
-			nthr.next = re.runq
-			nthr.mgroup = thr.mgroup
-			re.runq = nthr
-		;;
+		nthr = mkthread(re, rip)
+		nthr.next = re.runq
+		nthr.mgroup = thr.mgroup
+		re.runq = nthr
 		if re.debug
 			std.slpush(&re.traces, std.bsdup(re.traces[thr.tid]))
 		;;
-- 
2.43.0


From c20962d86fee231fda2046a7f81bc29e8617f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 062/129] fix: refuse a regex with too many groups, instead of
 aborting when it runs

---
 lib/regex/compile.myr | 4 ++++
 lib/regex/types.myr   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/regex/compile.myr b/lib/regex/compile.myr
index 922eed3..11abfbb 100644
--- a/lib/regex/compile.myr
+++ b/lib/regex/compile.myr
@@ -83,6 +83,10 @@ const regexcompile = {re, id
 			astfree(t)
 			-> `std.Err (`Incomplete)
 		;;
+		if re.nmatch > Maxmatch
+			astfree(t)
+			-> `std.Err (`Noimpl)
+		;;
 		dump(re, t, 0)
 		append(re, `Ilbra 0, t)
 		gen(re, t)
diff --git a/lib/regex/types.myr b/lib/regex/types.myr
index 4d65031..7f6f720 100644
--- a/lib/regex/types.myr
+++ b/lib/regex/types.myr
@@ -63,6 +63,9 @@ pkg regex =
 		`Eow	/* end of word */
 	;;
 
+	/* the whole match, and up to 15 groups */
+	const Maxmatch : std.size = 16
+
 	pkglocal type rethread = struct
 		next	: rethread#	/* run queue link */
 
@@ -71,7 +74,7 @@ pkg regex =
 		dead	: bool		/* thread died */
 		matched	: bool		/* thread matched */
 
-		mgroup	: std.size[2][16]	/* match starts */
+		mgroup	: std.size[2][Maxmatch]	/* match starts */
 	;;
 
 
-- 
2.43.0


From cf21db11cabc4f40142d2ded8c98083803a457bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 063/129] fix: matching the end of a word in an empty string
 does not abort

---
 lib/regex/interp.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/regex/interp.myr b/lib/regex/interp.myr
index d772b70..915b046 100644
--- a/lib/regex/interp.myr
+++ b/lib/regex/interp.myr
@@ -405,7 +405,7 @@ const step = {re, thr
 			die(re, thr)
 		;;
 	| OpEow:
-		if re.strp == str.len && iswordchar(prevchar(str, re.strp))
+		if re.strp == str.len && re.strp > 0 && iswordchar(prevchar(str, re.strp))
 			thr.ip++
 			-> false
 		elif re.strp > 0 && !iswordchar(str[re.strp:]) && iswordchar(prevchar(str, re.strp))
-- 
2.43.0


From 457f4d0cd895e7d3b1641f601c5bdc70fc90d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 064/129] fix: bio.write and bio.seek report that buffered data
 could not be written

---
 lib/bio/bio.myr | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index d678c71..fa703da 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -127,7 +127,9 @@ const write = {f, src
 		f.wend += src.len
 		-> `std.Ok src.len
 	else
-		flush(f)
+		if !flush(f)
+			-> `std.Err `Eio
+		;;
 		-> writebuf(f, src)
 	;;
 }
@@ -215,7 +217,9 @@ const flush = {f
 }
 
 const seek = {f, off
-	flush(f)
+	if !flush(f)
+		-> `std.Err `Eio
+	;;
 	f.rstart = f.rend = 0
 	match f.seek(off)
 	| `std.Ok ret:	-> `std.Ok ret
-- 
2.43.0


From ad79b9adf98c5c97337106838d0669c7a28aad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 065/129] fix: reads ask for no more than they need, and do not
 lose errors

---
 lib/bio/bio.myr | 74 ++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index fa703da..b62ffed 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -163,7 +163,7 @@ const read = {f, dst
 	*/
 	cap = f.rend - f.rstart
 	if dst.len < Small && cap < dst.len
-		fill(f, dst.len)
+		fillbuf(f, dst.len - cap)
 	;;
 	/* Read as much as we can from the buffer */
 	count = std.min(dst.len, f.rend - f.rstart)
@@ -178,7 +178,7 @@ const read = {f, dst
 
 	/* Read the rest directly from the fd */
 	d = dst[count:]
-	while d.len > 0
+	while d.len > 0 && f.lasterr == 0
 		match f.read(d)
 		| `std.Ok 0:
 			break
@@ -186,18 +186,16 @@ const read = {f, dst
 			count += n
 			d = d[n:]
 		| `std.Err err:
-			if count == 0
-				-> `std.Err errtype(err)
-			else
-				f.lasterr = err
-			;;
+			f.lasterr = err
 			break
 		;;
 	;;
-	if count == 0
-		-> `std.Err `Eof
-	else
+	if count > 0
 		-> `std.Ok dst[:count]
+	elif f.lasterr != 0
+		-> `std.Err geterr(f)
+	else
+		-> `std.Err `Eof
 	;;
 }
 
@@ -521,7 +519,7 @@ const ensureread = {f, n
 	std.assert(n < f.rbuf.len, "ensured read capacity > buffer size")
 	held = f.rend - f.rstart
 	if n > held
-		match fill(f, n)
+		match fill(f, n - held)
 		| `std.Err e:	-> `std.Err e
 		| `std.Ok len:
 			if held + len >= n
@@ -558,31 +556,42 @@ const writebuf = {f, src
 
 
 /*
-Reads as many bytes as possible from the file into
-the read buffer.
+Reads at least `min` more bytes from the file into
+the read buffer, if there are that many.
 */
 const fill = {f, min
-	var count, cap
+	var count
 
-	count = 0
 	/* Clear the error state so we can retry */
 	if f.lasterr != 0
 		-> `std.Err geterr(f)
 	;;
 
-	/* if we need to shift the slice down to the start, do it */
-	cap = f.rend - f.rstart
-	if min > cap
-		std.slcp(f.rbuf[:cap], f.rbuf[f.rstart:f.rend])
-		f.rstart = 0
-		f.rend = cap
+	count = fillbuf(f, min)
+	if count > 0
+		-> `std.Ok count
+	elif f.lasterr != 0
+		-> `std.Err geterr(f)
+	else
+		-> `std.Err `Eof
 	;;
+}
+
+/*
+If we've already read data, we don't want to throw it away, so
+errors are kept in the file, and the number of bytes that were
+added to the buffer is returned.
+*/
+const fillbuf = {f, min
+	var count, cap
+
+	/* make space, by shifting what we hold down to the start */
+	count = 0
+	cap = f.rend - f.rstart
+	std.slcp(f.rbuf[:cap], f.rbuf[f.rstart:f.rend])
+	f.rstart = 0
+	f.rend = cap
 	while count < min
-		/*
-		If we've already read data, we don't want to
-		throw it away, so we report a successful short
-		read, and then error on the next read.
-		*/
 		match f.read(f.rbuf[f.rend:])
 		| `std.Ok 0:
 			break
@@ -590,20 +599,11 @@ const fill = {f, min
 			count += n
 			f.rend += n
 		| `std.Err e:
-			if count > 0
-				f.lasterr = e
-			else
-				-> `std.Err errtype(e)
-			;;
+			f.lasterr = e
 			break
 		;;
 	;;
-
-	if count == 0
-		-> `std.Err `Eof
-	else
-		-> `std.Ok count
-	;;
+	-> count
 }
 
 const geterr = {f
-- 
2.43.0


From e7bc43c24ec2c5fb5ea27d0057b340d08e516480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 066/129] fix: getc and peekc see a truncated character at the
 end of a file

---
 lib/bio/bio.myr | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index b62ffed..5f46be5 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -295,7 +295,10 @@ const ensurecodepoint = {f
 		else
 			len = 1		/* invalid unicode char */
 		;;
-		-> ensureread(f, len)
+		match ensureread(f, len)
+		| `std.Err `Eof:	-> `std.Ok (f.rend - f.rstart)	/* truncated, so invalid */
+		| r:	-> r
+		;;
 	;;
 }
 
-- 
2.43.0


From db3589fbb7413f96390b003a04ceb91ede81f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 067/129] fix: a json object with a comma before its end is not
 valid

---
 lib/json/parse.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index cf6eb21..3d35e4d 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -104,7 +104,7 @@ const parseobj = {p
 		takec(p)
 		-> `std.Ok std.mk(`Obj membs)
 	;;
-	while peekc(p) != '}'
+	while true
 		match member(p)
 		| `std.Ok m:
 			std.slpush(&membs, m)
-- 
2.43.0


From d5fc49fa5afd5c007ec139da4093bf52214ab2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 068/129] fix: empty json arrays and objects do not count as
 nesting for what follows them

---
 lib/json/parse.myr | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index 3d35e4d..113cba6 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -102,6 +102,7 @@ const parseobj = {p
 	takespace(p)
 	if peekc(p) == '}'
 		takec(p)
+		exit(p)
 		-> `std.Ok std.mk(`Obj membs)
 	;;
 	while true
@@ -174,6 +175,7 @@ const parsearr = {p -> std.result(elt#, err)
 	takespace(p)
 	if peekc(p) == ']'
 		takec(p)
+		exit(p)
 		-> `std.Ok std.mk(`Arr elts)
 	;;
 	while true
-- 
2.43.0


From 1f316093ac4f992bd1f32b986d2cbf568de9ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 069/129] fix: json \u escapes were decoded wrong

---
 lib/json/parse.myr | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/lib/json/parse.myr b/lib/json/parse.myr
index 113cba6..aa2f36a 100644
--- a/lib/json/parse.myr
+++ b/lib/json/parse.myr
@@ -330,20 +330,38 @@ const jsonstr = {p
 }
 
 const unichar = {p
-	var c, i
+	var c, lo
+
+	c = hex4(p)
+	if c >= 0xd800 && c <= 0xdbff
+		/* the rest of a surrogate pair has to follow */
+		if takec(p) != '\\' || takec(p) != 'u'
+			-> `std.None
+		;;
+		lo = hex4(p)
+		if lo < 0xdc00 || lo > 0xdfff
+			-> `std.None
+		;;
+		c = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00)
+	elif c < 0 || (c >= 0xdc00 && c <= 0xdfff)
+		-> `std.None
+	;;
+	-> `std.Some (c : char)
+}
+
+const hex4 = {p
+	var c : int32, n : int32
 
 	c = 0
 	/* must be exactly 4 hex digits */
-	for i = 0; i < 4; i++
-		match std.charval(takec(p), 16)
-		| -1:	-> `std.None
-		| n:	c += n*16
+	for var i = 0; i < 4; i++
+		n = std.charval(takec(p), 16)
+		if n < 0
+			-> -1
 		;;
+		c = c*16 + n
 	;;
-	if i == 0
-		-> `std.None
-	;;
-	-> `std.Some c
+	-> c
 }
 
 const matchprefix = {p, pfx
-- 
2.43.0


From 7a299c5216d0e45d03ba64f5a6583c546ee4ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 070/129] fix: quotes and control characters in json strings
 are escaped

---
 lib/json/fmt.myr | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/json/fmt.myr b/lib/json/fmt.myr
index cb7815b..f07e21c 100644
--- a/lib/json/fmt.myr
+++ b/lib/json/fmt.myr
@@ -36,10 +36,16 @@ const jstrfmt = {sb, str
 		match (c : char)
 		| '\x0c':	std.sbputs(sb, "\\f")
 		| '\\':	std.sbputs(sb, "\\\\")
+		| '"':	std.sbputs(sb, "\\\"")
 		| '\n': std.sbputs(sb, "\\n")
 		| '\r':	std.sbputs(sb, "\\r")
 		| '\t': std.sbputs(sb, "\\t")
-		| _:	std.sbputb(sb, c)
+		| _:
+			if c < 0x20
+				std.sbfmt(sb, "\\u00{p=0,w=2,x}", c)
+			else
+				std.sbputb(sb, c)
+			;;
 		;;
 	;;
 	std.sbputs(sb, "\"")
-- 
2.43.0


From 7c5ddd856da255a230a35dd6790317a905ba9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 071/129] fix: inifile keys with the same hash were taken for
 the same key

---
 lib/inifile/types.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/inifile/types.myr b/lib/inifile/types.myr
index d91f7e1..ad025b1 100644
--- a/lib/inifile/types.myr
+++ b/lib/inifile/types.myr
@@ -31,7 +31,7 @@ impl std.equatable (byte[:], byte[:]) =
 		var s2, k2
 
 		(s1, k1) = a
-		(s2, k2) = a
+		(s2, k2) = b
 		-> std.eq(s1, s2) && std.eq(k1, k2)
 	}
 ;;
-- 
2.43.0


From a91b4eb55684098fdae4e939e08941c255733ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 072/129] fix: a comment after an ini section heading is not an
 error

---
 lib/inifile/parse.myr | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/inifile/parse.myr b/lib/inifile/parse.myr
index 6276cf8..1468ec1 100644
--- a/lib/inifile/parse.myr
+++ b/lib/inifile/parse.myr
@@ -77,8 +77,6 @@ const loadf = {fd
 }
 
 const parseline = {p, ini, ln
-	ln = std.strstrip(ln)
-
 	/* remove comments */
 	match std.strfind(ln, ";")
 	| `std.Some idx:	ln = ln[:idx]
@@ -90,6 +88,7 @@ const parseline = {p, ini, ln
 	;;
 
 	/* skip empty lines */
+	ln = std.strstrip(ln)
 	if ln.len == 0
 		-> true
 	;;
-- 
2.43.0


From 89a089a47d4d2282f575c5fa3988fb242d77be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 073/129] fix: inifile.load leaked its file and buffers

---
 lib/inifile/parse.myr | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/inifile/parse.myr b/lib/inifile/parse.myr
index 1468ec1..8f9027a 100644
--- a/lib/inifile/parse.myr
+++ b/lib/inifile/parse.myr
@@ -18,8 +18,13 @@ type parser = struct
 ;;
 
 const load = {path
+	var ret
+
 	match std.open(path, std.Oread)
-	| `std.Ok fd:	-> loadf(fd)
+	| `std.Ok fd:
+		ret = loadf(fd)
+		std.close(fd)
+		-> ret
 	| `std.Err e:	-> `std.Err `Fileerr
 	;;
 }
@@ -39,9 +44,9 @@ const free = {ini
 }
 
 const loadf = {fd
-	var p : parser#
+	var p : parser#, err
 	var ini
-	var f
+	var f, ok
 
 	ini = std.mk([
 		.elts = std.mkht()
@@ -57,7 +62,9 @@ const loadf = {fd
 		| `std.Err `bio.Eof:
 			break
 		| `std.Ok ln:
-			if !parseline(p, ini, ln)
+			ok = parseline(p, ini, ln)
+			std.slfree(ln)
+			if !ok
 				break
 			;;
 		| `std.Err e:
@@ -66,10 +73,13 @@ const loadf = {fd
 		;;
 		p.line++
 	;;
-	match p.err
+	bio.free(f)
+	err = p.err
+	std.slfree(p.sect)
+	std.free(p)
+	match err
 	| `std.None:
-		std.slfree(p.sect)
-		-> `std.Ok ini 
+		-> `std.Ok ini
 	| `std.Some e:
 		free(ini)
 		-> `std.Err e
-- 
2.43.0


From b8c593f16c80170b31ec2ed2270766dbedc23c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 074/129] fix: sections added by inifile.put are listed by
 bysection

---
 lib/inifile/access.myr | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/inifile/access.myr b/lib/inifile/access.myr
index 1af4fad..e7815e5 100644
--- a/lib/inifile/access.myr
+++ b/lib/inifile/access.myr
@@ -42,10 +42,20 @@ const put = {ini, sect, key, val
 	else
 		sect = std.sldup(sect)
 		key = std.sldup(key)
+		if sect.len != 0 && !hassect(ini, sect)
+			std.slpush(&ini.sects, std.sldup(sect))
+		;;
 	;;
 	std.htput(ini.elts, (sect, key), std.sldup(val))
 }
 
+const hassect = {ini, sect
+	match std.lsearch(ini.sects, sect, std.strcmp)
+	| `std.Some _:	-> true
+	| `std.None:	-> false
+	;;
+}
+
 const bysection = {ini
 	-> [.ini=ini, .idx=0]
 }
-- 
2.43.0


From ac5ec112ef21dd74c30ecaa072b6c199b5170856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 075/129] fix: execve aborted for want of room for the end of
 the environment

---
 lib/sys/sys+freebsd-x64.myr     | 2 +-
 lib/sys/sys+linux-x64.myr       | 2 +-
 lib/sys/sys+netbsd-x64.myr      | 2 +-
 lib/sys/sys+openbsd-x64.myr     | 2 +-
 lib/sys/sys+openbsd:6.2-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.3-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.4-x64.myr | 2 +-
 lib/sys/sys+openbsd:7.0-x64.myr | 2 +-
 lib/sys/sys+osx-x64.myr         | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/sys/sys+freebsd-x64.myr b/lib/sys/sys+freebsd-x64.myr
index 73821b4..865944b 100644
--- a/lib/sys/sys+freebsd-x64.myr
+++ b/lib/sys/sys+freebsd-x64.myr
@@ -1581,7 +1581,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = ((p : byte##))[:env.len]
+		cenv = ((p : byte##))[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 10ab534..5b83473 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -1653,7 +1653,7 @@ pkg sys =
 		 since we want to stack allocate...
 		*/
 		ep = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (ep : byte##)[:env.len]
+		cenv = (ep : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+netbsd-x64.myr b/lib/sys/sys+netbsd-x64.myr
index 5fd3bb0..f22c330 100644
--- a/lib/sys/sys+netbsd-x64.myr
+++ b/lib/sys/sys+netbsd-x64.myr
@@ -982,7 +982,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate... 
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = ((p : byte##))[:env.len]
+	cenv = ((p : byte##))[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
diff --git a/lib/sys/sys+openbsd-x64.myr b/lib/sys/sys+openbsd-x64.myr
index d840608..237bc08 100644
--- a/lib/sys/sys+openbsd-x64.myr
+++ b/lib/sys/sys+openbsd-x64.myr
@@ -686,7 +686,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate... 
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = (p : byte##)[:env.len]
+	cenv = (p : byte##)[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
diff --git a/lib/sys/sys+openbsd:6.2-x64.myr b/lib/sys/sys+openbsd:6.2-x64.myr
index d89b702..924160b 100644
--- a/lib/sys/sys+openbsd:6.2-x64.myr
+++ b/lib/sys/sys+openbsd:6.2-x64.myr
@@ -1109,7 +1109,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:6.3-x64.myr b/lib/sys/sys+openbsd:6.3-x64.myr
index ac7170b..eccaed3 100644
--- a/lib/sys/sys+openbsd:6.3-x64.myr
+++ b/lib/sys/sys+openbsd:6.3-x64.myr
@@ -1108,7 +1108,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:6.4-x64.myr b/lib/sys/sys+openbsd:6.4-x64.myr
index d32d031..dea7a43 100644
--- a/lib/sys/sys+openbsd:6.4-x64.myr
+++ b/lib/sys/sys+openbsd:6.4-x64.myr
@@ -1110,7 +1110,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+openbsd:7.0-x64.myr b/lib/sys/sys+openbsd:7.0-x64.myr
index 3b24add..9985bf4 100644
--- a/lib/sys/sys+openbsd:7.0-x64.myr
+++ b/lib/sys/sys+openbsd:7.0-x64.myr
@@ -1095,7 +1095,7 @@ pkg sys =
 		 since we want to stack allocate... 
 		*/
 		p = alloca((env.len + 1)*sizeof(byte#))
-		cenv = (p : byte##)[:env.len]
+		cenv = (p : byte##)[:env.len + 1]
 		for i = 0; i < env.len; i++
 			cenv[i] = cstring(env[i])
 		;;
diff --git a/lib/sys/sys+osx-x64.myr b/lib/sys/sys+osx-x64.myr
index a926156..02a43a6 100644
--- a/lib/sys/sys+osx-x64.myr
+++ b/lib/sys/sys+osx-x64.myr
@@ -937,7 +937,7 @@ const execve	= {cmd, args, env
 	 since we want to stack allocate...
 	*/
 	p = alloca((env.len + 1)*sizeof(byte#))
-	cenv = (p : byte##)[:env.len]
+	cenv = (p : byte##)[:env.len + 1]
 	for i = 0; i < env.len; i++
 		cenv[i] = cstring(env[i])
 	;;
-- 
2.43.0


From c77ab6da052cc88ca86cb9a6a6ae46533ef990b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 076/129] fix: getsockopt made the system call of setsockopt

---
 lib/sys/sys+freebsd-x64.myr     | 2 +-
 lib/sys/sys+linux-x64.myr       | 2 +-
 lib/sys/sys+netbsd-x64.myr      | 2 +-
 lib/sys/sys+openbsd-x64.myr     | 2 +-
 lib/sys/sys+openbsd:6.2-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.3-x64.myr | 2 +-
 lib/sys/sys+openbsd:6.4-x64.myr | 2 +-
 lib/sys/sys+openbsd:7.0-x64.myr | 2 +-
 lib/sys/sys+osx-x64.myr         | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/sys/sys+freebsd-x64.myr b/lib/sys/sys+freebsd-x64.myr
index 865944b..2475dac 100644
--- a/lib/sys/sys+freebsd-x64.myr
+++ b/lib/sys/sys+freebsd-x64.myr
@@ -1637,7 +1637,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 	
 	/* memory management */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 5b83473..0c53358 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -1725,7 +1725,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const accept	= {sock, addr, lenp;	-> (syscall(Sysaccept, a(sock), a(addr), a(lenp)) : fd)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 
 	/* memory mapping */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+netbsd-x64.myr b/lib/sys/sys+netbsd-x64.myr
index f22c330..a1565d4 100644
--- a/lib/sys/sys+netbsd-x64.myr
+++ b/lib/sys/sys+netbsd-x64.myr
@@ -1042,7 +1042,7 @@ const accept	= {sock, addr, len;	-> (syscall(Sysaccept, a(sock), a(addr), a(len)
 const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 
 /* memory management */
 const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+openbsd-x64.myr b/lib/sys/sys+openbsd-x64.myr
index 237bc08..93871af 100644
--- a/lib/sys/sys+openbsd-x64.myr
+++ b/lib/sys/sys+openbsd-x64.myr
@@ -735,7 +735,7 @@ const accept	= {sock, addr, len;	-> (syscall(Sysaccept, a(sock), a(addr), a(len)
 const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 
 /* memory management */
 const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+openbsd:6.2-x64.myr b/lib/sys/sys+openbsd:6.2-x64.myr
index 924160b..4c3b095 100644
--- a/lib/sys/sys+openbsd:6.2-x64.myr
+++ b/lib/sys/sys+openbsd:6.2-x64.myr
@@ -1158,7 +1158,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 	
 	/* memory management */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+openbsd:6.3-x64.myr b/lib/sys/sys+openbsd:6.3-x64.myr
index eccaed3..a9e4a99 100644
--- a/lib/sys/sys+openbsd:6.3-x64.myr
+++ b/lib/sys/sys+openbsd:6.3-x64.myr
@@ -1157,7 +1157,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 	
 	/* memory management */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+openbsd:6.4-x64.myr b/lib/sys/sys+openbsd:6.4-x64.myr
index dea7a43..96f5f87 100644
--- a/lib/sys/sys+openbsd:6.4-x64.myr
+++ b/lib/sys/sys+openbsd:6.4-x64.myr
@@ -1159,7 +1159,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 	
 	/* memory management */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+openbsd:7.0-x64.myr b/lib/sys/sys+openbsd:7.0-x64.myr
index 9985bf4..8e0a594 100644
--- a/lib/sys/sys+openbsd:7.0-x64.myr
+++ b/lib/sys/sys+openbsd:7.0-x64.myr
@@ -1144,7 +1144,7 @@ pkg sys =
 	const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 	const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 	const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+	const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 	
 	/* memory management */
 	const munmap	= {addr, len;		-> syscall(Sysmunmap, a(addr), a(len))}
diff --git a/lib/sys/sys+osx-x64.myr b/lib/sys/sys+osx-x64.myr
index 02a43a6..112f486 100644
--- a/lib/sys/sys+osx-x64.myr
+++ b/lib/sys/sys+osx-x64.myr
@@ -1005,7 +1005,7 @@ const accept	= {sock, addr, len;	-> (syscall(Sysaccept, a(sock), a(addr), a(len)
 const listen	= {sock, backlog;	-> (syscall(Syslisten, a(sock), a(backlog)) : int)}
 const bind	= {sock, addr, len;	-> (syscall(Sysbind, a(sock), a(addr), a(len)) : int)}
 const setsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
-const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Syssetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
+const getsockopt	= {sock, lev, opt, val, len;	-> (syscall(Sysgetsockopt, a(sock), a(lev), a(opt), a(val), a(len)) : int)}
 const recvfrom	= {sock, buf, flags, addr, addr_len;	-> (syscall(Sysrecvfrom, a(sock), (buf : byte#), a(buf.len), a(flags), a(addr), a(addr_len)) : int)}
 
 /* memory management */
-- 
2.43.0


From ec6aaced7efda62c22a705b049abe38cbc2e5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 077/129] fix: semctl did not pass the semaphore set on

---
 lib/sys/sys+linux-x64.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 0c53358..0f7002d 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -1707,7 +1707,7 @@ pkg sys =
 		-> (syscall(Sysfutex, a(uaddr), a(op), a(val), a(timeout), a(uaddr2), a(val3)) : int)
 	}
 	const semctl	= {semid, semnum, cmd, arg
-		-> (syscall(Syssemctl, a(semnum), a(cmd), a(arg)) : int)
+		-> (syscall(Syssemctl, a(semid), a(semnum), a(cmd), a(arg)) : int)
 	}
 
 	/* poll */
-- 
2.43.0


From 8fd979fc2897b6e5278d932ff4540fbe0caa36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 078/129] fix: blat left the end of a longer file in place

---
 lib/std/blat.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/blat.myr b/lib/std/blat.myr
index 46a6e3e..ab9e3c4 100644
--- a/lib/std/blat.myr
+++ b/lib/std/blat.myr
@@ -7,7 +7,7 @@ pkg std =
 ;;
 
 const blat = {path, buf, perm
-	match openmode(path, Ocreat|Owrite, perm)
+	match openmode(path, Ocreat|Owrite|Otrunc, perm)
 	| `Ok fd:
 		var r = fblat(fd, buf)
 		close(fd)
-- 
2.43.0


From 021413c72f777440bf200cc514e2daf178b2ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 079/129] fix: writeall said that everything was written when
 writing failed

---
 lib/std/writeall.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/writeall.myr b/lib/std/writeall.myr
index 367ed33..65b9552 100644
--- a/lib/std/writeall.myr
+++ b/lib/std/writeall.myr
@@ -14,8 +14,8 @@ const writeall = {fd, src
 	sz = src.len
 	while src.len != 0
 		match std.write(fd, src)
-		| `Err e:	-> `std.Err (sz, e)
-		| `Ok 0:	-> `std.Err (sz, 0)
+		| `Err e:	-> `std.Err (sz - src.len, e)
+		| `Ok 0:	-> `std.Err (sz - src.len, 0)
 		| `Ok n:	src = src[n:]
 		;;
 	;;
-- 
2.43.0


From 4d6d6b07f01598db3437394274a9a175ad9e848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 080/129] fix: put and fput returned the number of bytes
 written plus garbage

---
 lib/std/fmt.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/fmt.myr b/lib/std/fmt.myr
index 6091245..9aa7dce 100644
--- a/lib/std/fmt.myr
+++ b/lib/std/fmt.myr
@@ -118,8 +118,8 @@ const fputv = {fd, fmt, ap
 	sbfmtv(sb, fmt, ap)
 	s = sbfin(sb)
 	match writeall(fd, s)
-	| `std.Ok n:		nw += n
-	| `std.Err (n, _):	nw += n
+	| `std.Ok n:		nw = n
+	| `std.Err (n, _):	nw = n
 	;;
 	slfree(s)
 	-> nw
-- 
2.43.0


From a47ce1fa0b90770164d14dd5bc00368f12970cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 081/129] fix: fisdir and fisreg took devices for directories
 and sockets for files

---
 lib/std/syswrap+posixy.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index de62bef..41abc9f 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -158,7 +158,7 @@ const fisdir = {path
 	var sb
 
 	if sys.stat(path, &sb) >= 0
-		-> sb.mode & sys.Sifdir != 0
+		-> sb.mode & sys.Sifmt == sys.Sifdir
 	else
 		-> false
 	;;
@@ -168,7 +168,7 @@ const fisreg = {path
 	var sb
 
 	if sys.stat(path, &sb) >= 0
-		-> sb.mode & sys.Sifreg != 0
+		-> sb.mode & sys.Sifmt == sys.Sifreg
 	else
 		-> false
 	;;
-- 
2.43.0


From d49ace1269a4b11592550869002919fe02b65f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 082/129] fix: fmtime is in microseconds, like all other times

---
 lib/std/syswrap+posixy.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index 41abc9f..7435587 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -182,7 +182,7 @@ const fmtime = {path
 	if r >= 0
 		sec = (sb.mtime.sec : time)
 		nsec = (sb.mtime.nsec : time)
-		-> `Ok (sec*1000 + nsec/1_000_000)
+		-> `Ok (sec*1_000_000 + nsec/1000)
 	else
 		-> check(r)
 	;;
-- 
2.43.0


From 60ffb6b701ac4e183bc2afcea0a7eb513ff3b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 083/129] fix: mkpath reports that the last directory could not
 be made

---
 lib/std/mkpath.myr | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/std/mkpath.myr b/lib/std/mkpath.myr
index 22d1d3d..891d587 100644
--- a/lib/std/mkpath.myr
+++ b/lib/std/mkpath.myr
@@ -19,6 +19,8 @@ const mkpath = {p
 		;;
 	;;
 	st = mkdir(p, 0o755)
-
-	-> Enone
+	if st != Enone && fisdir(p)
+		-> Enone
+	;;
+	-> st
 }
-- 
2.43.0


From d99ce8804df688348a064aae2d3d71c61950a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 084/129] fix: getcwd leaked its buffer when it was too small

---
 lib/std/getcwd.myr | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/std/getcwd.myr b/lib/std/getcwd.myr
index 061a205..8904e93 100644
--- a/lib/std/getcwd.myr
+++ b/lib/std/getcwd.myr
@@ -22,6 +22,7 @@ const getcwd = {
 			std.slfree(buf)
 			-> ""
 		else
+			std.slfree(buf)
 			len *= 2
 		;;
 	;;
-- 
2.43.0


From 9c00b1c0fe04da5b7976e81f75a7deef55f7e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 085/129] fix: getenv and setenv abort on environment strings
 that end after the name

---
 lib/std/env+posixy.myr | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/std/env+posixy.myr b/lib/std/env+posixy.myr
index 82ad4ff..2da940d 100644
--- a/lib/std/env+posixy.myr
+++ b/lib/std/env+posixy.myr
@@ -36,7 +36,7 @@ const getenv = {name
 		if envp != Zenvp
 			env = cstrconvp(envp)
 			n = min(name.len, env.len)
-			if eq(name, env[:n]) && eq(env[n:n+1], "=")
+			if eq(name, env[:n]) && n < env.len && env[n] == ('=' : byte)
 				-> `Some env[n+1:]
 			;;
 		;;
@@ -65,8 +65,8 @@ const setenv = {name, val
 		;;
 
 		env = cstrconvp(envp)
-		n = min(name.len, env.len - 1)
-		if eq(name, env[:n]) && env[n] == ('=' : byte)
+		n = min(name.len, env.len)
+		if eq(name, env[:n]) && n < env.len && env[n] == ('=' : byte)
 			found = true
 			break
 		;;
-- 
2.43.0


From b4745d674ba407bca50d578f448f3b6ab25644b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 086/129] fix: execvp looked in / when the search path ends in
 a colon

---
 lib/std/execvp.myr | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/std/execvp.myr b/lib/std/execvp.myr
index 8c1bffe..c15f77a 100644
--- a/lib/std/execvp.myr
+++ b/lib/std/execvp.myr
@@ -24,6 +24,9 @@ const execvp = {cmd, args
 		paths = std.getenvv("PATH", "/usr/local/bin:/bin:/usr/bin")
 		while j < paths.len
 			(i, j) = nextpath(paths, j)
+			if i == j
+				break
+			;;
 			binpath = mkpath(buf[:], paths[i:j], cmd)
 			execv(binpath, args)
 		;;
@@ -44,6 +47,9 @@ const execvpe = {cmd, args, env
 		paths = std.getenvv("PATH", "/usr/local/bin:/bin:/usr/bin")
 		while j < paths.len
 			(i, j) = nextpath(paths, j)
+			if i == j
+				break
+			;;
 			binpath = mkpath(buf[:], paths[i:j], cmd)
 			execve(binpath, args, env)
 		;;
-- 
2.43.0


From 19751bb4641c979997b6bbd371d666ade1cc8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 087/129] fix: remove removes links to directories

---
 lib/std/syswrap+posixy.myr | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index 7435587..f68b66b 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -107,7 +107,10 @@ const nopipe = {
 const mkdir	= {path, mode;	-> (sys.mkdir(path, mode) : errno)}
 const chdir	= {path;	-> sys.chdir(path) == 0}
 const remove	= {path;	
-	if std.fisdir(path)
+	var sb
+
+	/* a link to a directory is not a directory */
+	if sys.lstat(path, &sb) >= 0 && sb.mode & sys.Sifmt == sys.Sifdir
 		-> sys.rmdir(sys.cstring(path)) == 0
 	else
 		-> sys.unlink(path) == 0
-- 
2.43.0


From 8bdf524c74b1db300dc7aac27a2fdf79ac92248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 088/129] fix: rmrf does not delete what symbolic links lead
 to, and deletes all hard links and large trees

---
 lib/fileutil/del.myr              | 25 ++++++++-----------------
 lib/fileutil/loopcheck+plan9.myr  |  5 +++++
 lib/fileutil/loopcheck+posixy.myr |  7 +++++++
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/lib/fileutil/del.myr b/lib/fileutil/del.myr
index c82bfc9..c3fdd69 100644
--- a/lib/fileutil/del.myr
+++ b/lib/fileutil/del.myr
@@ -7,20 +7,12 @@ pkg fileutil =
 ;;
 
 const rmrf = {dir
-	var loopck, ok
-	
-	loopck = mkloopcheck(dir)
-	ok = rmrf_rec(dir, loopck)
-	freeloopcheck(loopck)
-	-> ok
-}
-
-const rmrf_rec = {path, loopck
 	var ok, p
 
 	ok = true
-	if std.fisdir(path)
-		match std.diropen(path)
+	/* do not follow links: only the link is to be removed */
+	if std.fisdir(dir) && !islink(dir)
+		match std.diropen(dir)
 		| `std.Err e:
 			ok = false
 		| `std.Ok d:
@@ -28,16 +20,15 @@ const rmrf_rec = {path, loopck
 				if std.sleq(e, ".") || std.sleq(e, "..")
 					continue
 				;;
-				p = std.pathcat(path, e)
-				if !looped(loopck, p)
-					ok = ok && rmrf(p)
-				;;
+				p = std.pathcat(dir, e)
+				ok = rmrf(p) && ok
 				std.slfree(p)
 			;;
-			ok = ok && std.remove(path)
+			std.dirclose(d)
+			ok = std.remove(dir) && ok
 		;;
 	else
-		ok = ok && std.remove(path)
+		ok = std.remove(dir)
 	;;
 	-> ok
 }
diff --git a/lib/fileutil/loopcheck+plan9.myr b/lib/fileutil/loopcheck+plan9.myr
index 9b5584b..6e1afbf 100644
--- a/lib/fileutil/loopcheck+plan9.myr
+++ b/lib/fileutil/loopcheck+plan9.myr
@@ -7,6 +7,7 @@ pkg fileutil =
 	const mkloopcheck	: (cwd : byte[:] -> loopcheck)
 	const freeloopcheck	: (l : loopcheck -> void)
 	const looped	: (l : loopcheck, p : byte[:] -> bool)
+	pkglocal const islink	: (p : byte[:] -> bool)
 ;;
 
 const mkloopcheck = {cwd
@@ -19,3 +20,7 @@ const freeloopcheck = {l
 const looped = {l, p
 	-> false
 }
+
+const islink = {p
+	-> false
+}
diff --git a/lib/fileutil/loopcheck+posixy.myr b/lib/fileutil/loopcheck+posixy.myr
index c01e109..2e581b8 100644
--- a/lib/fileutil/loopcheck+posixy.myr
+++ b/lib/fileutil/loopcheck+posixy.myr
@@ -8,6 +8,7 @@ pkg fileutil =
 	const mkloopcheck	: (cwd : byte[:] -> loopcheck)
 	const freeloopcheck	: (l : loopcheck -> void)
 	const looped	: (l : loopcheck, p : byte[:] -> bool)
+	pkglocal const islink	: (p : byte[:] -> bool)
 ;;
 
 const mkloopcheck = {cwd
@@ -38,6 +39,12 @@ const looped = {l, p
 	;;
 }
 
+const islink = {p
+	var sb
+
+	-> sys.lstat(p, &sb) == 0 && sb.mode & sys.Sifmt == sys.Siflnk
+}
+
 const fid = {p
 	var sb
 
-- 
2.43.0


From 455967bae25592f0e0bf2fc299aee8c2da9339fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 089/129] fix: bywalk lists all hard links of a file

---
 lib/fileutil/walk.myr | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fileutil/walk.myr b/lib/fileutil/walk.myr
index dbdfb5f..8397c62 100644
--- a/lib/fileutil/walk.myr
+++ b/lib/fileutil/walk.myr
@@ -45,11 +45,11 @@ impl iterable walkiter -> byte[:] =
 		| `std.Some "..":	goto nextfile
 		| `std.Some ent:
 			p = std.pathcat(itp.curdir[itp.curdir.len - 1], ent)
-			if looped(itp.loopck, p)
-				std.slfree(p)
-				goto nextfile
-			;;
 			if std.fisdir(p)
+				if looped(itp.loopck, p)
+					std.slfree(p)
+					goto nextfile
+				;;
 				match std.diropen(p)
 				| `std.Ok d:
 					std.slpush(&itp.dirstk, d)
-- 
2.43.0


From 721051506fde778b5208804c862b5889c7f1c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 090/129] fix: mktemp opened files that were already there

---
 lib/std/mktemp.myr         | 2 +-
 lib/std/syswrap+plan9.myr  | 1 +
 lib/std/syswrap+posixy.myr | 1 +
 lib/sys/sys+osx-x64.myr    | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/std/mktemp.myr b/lib/std/mktemp.myr
index f5e8661..f5305fb 100644
--- a/lib/std/mktemp.myr
+++ b/lib/std/mktemp.myr
@@ -39,7 +39,7 @@ const mktempat = {tmpdir, base, opt, mode
 
 	for var i = 0; i < Retries; i++
 		path = randpath(tmpdir, base)
-		match std.openmode(path, opt | Ocreat, mode)
+		match std.openmode(path, opt | Ocreat | Oexcl, mode)
 		| `Err e:
 			if e != Eexist
 				std.slfree(path)
diff --git a/lib/std/syswrap+plan9.myr b/lib/std/syswrap+plan9.myr
index 92d8beb..03b6907 100644
--- a/lib/std/syswrap+plan9.myr
+++ b/lib/std/syswrap+plan9.myr
@@ -31,6 +31,7 @@ pkg std =
 	const Owrite  	: fdopt = (sys.Owrite	: fdopt)
 	const Ordwr    	: fdopt = (sys.Ordwr	: fdopt)
 	const Otrunc   	: fdopt = (sys.Otrunc	: fdopt)
+	const Oexcl   	: fdopt = (sys.Oexcl	: fdopt)
 	const Ocexec	: fdopt = (sys.Ocexec	: fdopt)
 	const Ocreat   	: fdopt = 0x1000000	/* emulated by redirecting to creat(). */
 	const Oappend  	: fdopt = 0x2000000	/* emulated by seeking to EOF */
diff --git a/lib/std/syswrap+posixy.myr b/lib/std/syswrap+posixy.myr
index f68b66b..cd15f29 100644
--- a/lib/std/syswrap+posixy.myr
+++ b/lib/std/syswrap+posixy.myr
@@ -30,6 +30,7 @@ pkg std =
 	const Ordwr    	: fdopt = (sys.Ordwr	: fdopt)
 	const Ocreat   	: fdopt = (sys.Ocreat	: fdopt)
 	const Otrunc   	: fdopt = (sys.Otrunc	: fdopt)
+	const Oexcl   	: fdopt = (sys.Oexcl	: fdopt)
 	const Ocexec	: fdopt = (sys.Ocloexec	: fdopt)
 	const Oappend	: fdopt = (sys.Oappend	: fdopt)
 	const Odir	: fdopt = (sys.Odir	: fdopt)
diff --git a/lib/sys/sys+osx-x64.myr b/lib/sys/sys+osx-x64.myr
index 112f486..6f29301 100644
--- a/lib/sys/sys+osx-x64.myr
+++ b/lib/sys/sys+osx-x64.myr
@@ -241,6 +241,7 @@ pkg sys =
 	const Ocreat   	: fdopt = 0x200
 	const Onofollow	: fdopt = 0x100
 	const Otrunc   	: fdopt = 0x400
+	const Oexcl	: fdopt = 0x800
 	const Odir	: fdopt = 0x100000
 	const Ocloexec	: fdopt = 0x1000000
 
-- 
2.43.0


From c2a686d20ed43422ba269674b07acb2351918112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 091/129] fix: bio.close left the file open when flushing
 failed

---
 lib/bio/bio.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bio/bio.myr b/lib/bio/bio.myr
index 5f46be5..5698572 100644
--- a/lib/bio/bio.myr
+++ b/lib/bio/bio.myr
@@ -87,7 +87,7 @@ const close = {f
 	var ok
 
 	ok = flush(f)
-	ok = ok && f.close()
+	ok = f.close() && ok
 	_free(f)
 	-> ok
 }
-- 
2.43.0


From 76b8c13b5872a3c2fef13dfc250639efaecf1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 092/129] fix: inifile.write reports all errors

---
 lib/inifile/write.myr | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/inifile/write.myr b/lib/inifile/write.myr
index f4d604e..bede7ed 100644
--- a/lib/inifile/write.myr
+++ b/lib/inifile/write.myr
@@ -15,7 +15,7 @@ const write = {ini, path
 	| `std.Err e:	-> false
 	| `std.Ok f:
 		ret = writeini(f, ini)
-		bio.close(f)
+		ret = bio.close(f) && ret
 	;;
 	-> ret
 }
@@ -25,13 +25,12 @@ const writef = {ini, fd
 
 	f = bio.mkfile(fd, bio.Wr)
 	ret = writeini(f, ini)
-	bio.close(f)
-	-> ret
+	-> bio.close(f) && ret
 }
 
 
 const writeini = {f, ini
-	var oldsect, val
+	var oldsect, val, ok
 	var keys
 
 	keys = std.htkeys(ini.elts)
@@ -43,19 +42,23 @@ const writeini = {f, ini
 		-> std.strcmp(sa, sb)
 	})
 
+	ok = true
 	oldsect = ""
 	for (sect, key) : keys
 		if !std.eq(sect, oldsect)
-			bio.put(f, "[{}]\n", sect)
+			match bio.put(f, "[{}]\n", sect)
+			| `std.Err e:	ok = false
+			| _:
+			;;
 		;;
 		oldsect = sect
 
 		val = std.htgetv(ini.elts, (sect, key), "")
 		match bio.put(f, "\t{} = {}\n", key, val)
-		| `std.Err e: -> false
+		| `std.Err e:	ok = false
 		| _:
 		;;
 	;;
 	std.slfree(keys)
-	-> true
+	-> ok
 }
-- 
2.43.0


From ad16f5c1c0f61020d399a39ab08a5e9fadbecf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 093/129] fix: fadvise and prlimit made the system call of read

---
 lib/sys/sys+linux-x64.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 0f7002d..6fd6942 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -991,7 +991,7 @@ pkg sys =
 	const Sysmremap			: scno = 25
 	const Sysremap_file_pages	: scno = 216
 	const Sysmsync			: scno = 26
-	const Sysfadvise		: scno = 0
+	const Sysfadvise		: scno = 221
 	const Sysmunmap			: scno = 11
 	const Sysmlock			: scno = 149
 	const Sysmunlock		: scno = 150
@@ -1083,7 +1083,7 @@ pkg sys =
 	const Sysuname			: scno = 63
 	const Sysgetrlimit		: scno = 97
 	const Syssetrlimit		: scno = 160
-	const Sysprlimit		: scno = 0
+	const Sysprlimit		: scno = 302
 	const Sysgetrusage		: scno = 98
 	const Sysumask			: scno = 95
 	const Sysmsgget			: scno = 68
-- 
2.43.0


From baee9d674106a9f86e8821b3206e0fbdc561dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 094/129] fix: the numbers of Epollctlmod and Epollctldel were
 swapped

---
 lib/sys/sys+linux-x64.myr | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sys/sys+linux-x64.myr b/lib/sys/sys+linux-x64.myr
index 6fd6942..4c5e496 100644
--- a/lib/sys/sys+linux-x64.myr
+++ b/lib/sys/sys+linux-x64.myr
@@ -528,8 +528,8 @@ pkg sys =
 
 	/* epoll ops */
 	const Epollctladd	: epollop	= 1
-	const Epollctlmod	: epollop	= 2
-	const Epollctldel	: epollop	= 3
+	const Epollctldel	: epollop	= 2
+	const Epollctlmod	: epollop	= 3
 
 	/* epoll events */
 	const Epollin	: epollevttype = 0x001
-- 
2.43.0


From 9ec6b11cda9fdf0a828cc40c5c7c2ff1d0d80b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 095/129] fix: a literal assigned to a variable it was made
 from was built in place, piece by piece

---
 6/simp.c | 90 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 1 deletion(-)

diff --git a/6/simp.c b/6/simp.c
index f588fa7..4fb0212 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -772,13 +772,101 @@ tupget(Simp *s, Node *tup, size_t idx, Node *dst)
 	return dst;
 }
 
+/* the variable that a member or element is part of, if it's known */
+static Node *
+basevar(Node *n)
+{
+	Type *ty;
+
+	while (exprop(n) == Omemb || exprop(n) == Otupmemb || exprop(n) == Oidx) {
+		n = n->expr.args[0];
+		ty = tybase(exprtype(n));
+		if (ty->type == Typtr || ty->type == Tyslice)
+			return NULL;
+	}
+	return exprop(n) == Ovar ? n : NULL;
+}
+
+/* does evaluating n read from something that writing to lhs would change? */
+static int
+mayread(Node *n, Node *lhs)
+{
+	Node *v, **env, *fn;
+	size_t i, nenv;
+	int r;
+
+	switch (exprop(n)) {
+	case Ovar:
+		if (isconstfn(n))
+			return 0;
+		v = basevar(lhs);
+		return !v || v->expr.did == n->expr.did;
+	case Olit:
+		fn = n->expr.args[0];
+		if (fn->lit.littype != Lfunc)
+			return 0;
+		r = 0;
+		v = basevar(lhs);
+		env = getclosure(fn->lit.fnval->func.scope, &nenv);
+		for (i = 0; env && i < nenv; i++)
+			if (!v || v->expr.did == env[i]->decl.did)
+				r = 1;
+		free(env);
+		return r;
+	case Osize:
+	case Ogap:
+		return 0;
+	case Ocall:
+	case Oderef:
+		return 1;
+	case Omemb:
+	case Otupmemb:
+	case Oidx:
+		if (!basevar(n))
+			return 1;
+		break;
+	default:
+		break;
+	}
+	for (i = 0; i < n->expr.nargs; i++)
+		if (n->expr.args[i] && n->expr.args[i]->type == Nexpr && mayread(n->expr.args[i], lhs))
+			return 1;
+	return 0;
+}
+
+/* values built piece by piece can't be built in place if the pieces
+ * come from what is being overwritten */
+static int
+inplace(Node *lhs, Node *rhs)
+{
+	Node *dcl;
+
+	/* functions initializing a variable may refer to themselves through it */
+	if (exprop(lhs) == Ovar) {
+		dcl = decls[lhs->expr.did];
+		if (dcl->decl.init && dcl->decl.init == rhs)
+			return 1;
+	}
+	switch (exprop(rhs)) {
+	case Ostruct:
+	case Otup:
+	case Oarr:
+	case Oucon:
+	case Oslice:
+	case Olit:
+		return !mayread(rhs, lhs);
+	default:
+		return 1;
+	}
+}
+
 static Node *
 assign(Simp *s, Node *lhs, Node *rhs)
 {
 	Node *t, *u, *v, *r;
 
 	t = lval(s, lhs);
-	u = rval(s, rhs, t);
+	u = rval(s, rhs, inplace(lhs, rhs) ? t : NULL);
 
 	if (tybase(exprtype(lhs))->type == Tyvoid)
 		return u;
-- 
2.43.0


From 9309cb2d641101cfd6bcc0538a56340a0bedb9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 096/129] fix: destructuring a value of which parts are
 overwritten

---
 mi/flatten.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 2337d7b..198c12c 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -348,6 +348,27 @@ flattenlazy(Flattenctx *s, Node *n)
 	return r;
 }
 
+/* only whole variables are written */
+static int
+plainlhs(Node *lhs)
+{
+	size_t i;
+
+	for (i = 0; i < lhs->expr.nargs; i++) {
+		switch (exprop(lhs->expr.args[i])) {
+		case Ovar: case Ogap:
+			break;
+		case Otup:
+			if (!plainlhs(lhs->expr.args[i]))
+				return 0;
+			break;
+		default:
+			return 0;
+		}
+	}
+	return 1;
+}
+
 static Node *
 destructure(Flattenctx *s, Node *lhs, Node *rhs)
 {
@@ -358,7 +379,7 @@ destructure(Flattenctx *s, Node *lhs, Node *rhs)
 	args = lhs->expr.args;
 	rhs = rval(s, rhs);
 	/* the whole value is read before any of the targets are written */
-	if (exprop(rhs) == Otup) {
+	if (exprop(rhs) != Otupget && (exprop(rhs) != Ovar || !plainlhs(lhs))) {
 		t = temp(s, rhs);
 		append(s, asn(t, rhs));
 		rhs = t;
-- 
2.43.0


From 3d8d6a4c066a9f52d5530ce462ee5cee9d07d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 097/129] fix: a small aggregate returned in registers was
 stored as 8 or 16 bytes whatever its size

---
 6/isel.c | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index c50a36a..9be0971 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -637,6 +637,39 @@ plus8(Isel *s, Loc *base)
 	return locmem(8, forcedreg, NULL, ModeQ);
 }
 
+/*
+ * Stores the 'sz' bytes of an aggregate which were returned in
+ * the register 'reg', and nothing beyond them.
+ */
+static void
+storepart(Isel *s, Loc *reg, Loc *base, size_t off, size_t sz)
+{
+	size_t modesz;
+	Loc *val, *part;
+
+	if (isfloatmode(reg->mode)) {
+		g(s, Imovs, reg, locmem(off, base, NULL, reg->mode), NULL);
+		return;
+	}
+	if (szmodes[sz] != ModeNone) {
+		g(s, Imov, reg, locmem(off, base, NULL, reg->mode), NULL);
+		return;
+	}
+	val = locreg(ModeQ);
+	g(s, Imov, reg, val, NULL);
+	for (modesz = 4; sz > 0; modesz /= 2) {
+		if (sz < modesz)
+			continue;
+		part = locreg(szmodes[modesz]);
+		g(s, Imov, val, part, NULL);
+		g(s, Imov, part, locmem(off, base, NULL, szmodes[modesz]), NULL);
+		off += modesz;
+		sz -= modesz;
+		if (sz > 0)
+			g(s, Ishr, loclit(8*modesz, ModeB), val, NULL);
+	}
+}
+
 static void
 gencall(Isel *s, Node *n)
 {
@@ -813,26 +846,15 @@ gencall(Isel *s, Node *n)
 			g(s, Imov, retloc1, ret, NULL);
 		break;
 	case ArgAggrI:
-		g(s, Imov, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		break;
 	case ArgAggrF:
-		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
+		storepart(s, retloc1, inri(s, selexpr(s, retnode)), 0, size(n));
 		break;
 	case ArgAggrII:
-		g(s, Imov, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		g(s, Imov, retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		break;
 	case ArgAggrIF:
-		g(s, Imov,  retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		g(s, Imovs, retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
-		break;
 	case ArgAggrFI:
-		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
-		g(s, Imov,  retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeQ), NULL);
-		break;
 	case ArgAggrFF:
-		g(s, Imovs, retloc1, locmem(0, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
-		g(s, Imovs, retloc2, locmem(8, inri(s, selexpr(s, retnode)), NULL, ModeD), NULL);
+		storepart(s, retloc1, inri(s, selexpr(s, retnode)), 0, 8);
+		storepart(s, retloc2, inri(s, selexpr(s, retnode)), 8, size(n) - 8);
 		break;
 	}
 }
-- 
2.43.0


From e788244b8a0171300eca52b0825f4f4f78193e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 098/129] fix: in generics, a variable initialized with a
 function shared its number with the argument

---
 parse/specialize.c | 2 +-
 parse/use.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index 6e8c6fd..c3fb82a 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -427,6 +427,7 @@ specializenode(Node *n, Tysubst *tsmap)
 		break;
 	case Ndecl:
 		r->decl.did = ndecls;
+		lappend(&decls, &ndecls, r);
 		/* sym */
 		r->decl.env = n->decl.env;
 		r->decl.name = specializenode(n->decl.name, tsmap);
@@ -444,7 +445,6 @@ specializenode(Node *n, Tysubst *tsmap)
 		pushenv(r->decl.env);
 		r->decl.init = specializenode(n->decl.init, tsmap);
 		popenv(r->decl.env);
-		lappend(&decls, &ndecls, r);
 		break;
 	case Nfunc:
 		r->func.scope = mkstab(1);
diff --git a/parse/use.c b/parse/use.c
index 5b01860..58d6035 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -698,6 +698,7 @@ unpickle(FILE *fd)
 		break;
 	case Ndecl:
 		n->decl.did = ndecls; /* unique within file */
+		lappend(&decls, &ndecls, n);
 		/* sym */
 		n->decl.name = unpickle(fd);
 		rdtype(fd, &n->decl.type);
@@ -711,7 +712,6 @@ unpickle(FILE *fd)
 
 		/* init */
 		n->decl.init = unpickle(fd);
-		lappend(&decls, &ndecls, n);
 		break;
 	case Nfunc:
 		rdtype(fd, &n->func.type);
-- 
2.43.0


From e4f2a55e95eb8839133cebcfd174af3eb3012674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 099/129] fix: continue skipped __iterfin__ for the element

---
 mi/flatten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 198c12c..c93c99e 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -996,7 +996,7 @@ flattentraititer(Flattenctx *s, Node *n)
 
 	s->inloop++;
 	l = s->loop;
-	s->loop.lcnt = lstep;
+	s->loop.lcnt = lclean;
 	s->loop.lbrk = lend;
 	s->loop.body = n->iterstmt.body->block.scope;
 
-- 
2.43.0


From e4d3afe782b9baf24465eeb4c10e3a6af8dc836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 100/129] fix: increments in a loop condition were not applied
 when it was false

---
 mi/flatten.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index c93c99e..48ac42d 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -768,12 +768,11 @@ flattenloop(Flattenctx *s, Node *n)
 	Loop l;
 	Node *lbody;
 	Node *lend;
-	Node *ldec;
 	Node *lcond;
 	Node *lstep;
+	Node *cond, *t;
 
 	lbody = genlbl(n->loc);
-	ldec = genlbl(n->loc);
 	lcond = genlbl(n->loc);
 	lstep = genlbl(n->loc);
 	lend = genlbl(n->loc);
@@ -794,12 +793,16 @@ flattenloop(Flattenctx *s, Node *n)
 	flatten(s, lstep);             /* test lbl */
 	flatten(s, n->loopstmt.step);  /* step */
 	flatten(s, lcond);             /* test lbl */
-	flattencond(s, n->loopstmt.cond, ldec, lend);    /* repeat? */
-	flatten(s, ldec);        	/* drain decrements */
-	draininc(s);
-	jmp(s, lbody);              	/* goto test */
+	cond = rval(s, n->loopstmt.cond);
+	if (s->incqueue) {
+		/* increments are due whether or not the loop goes on */
+		t = temp(s, cond);
+		flatten(s, asn(t, cond));
+		draininc(s);
+		cond = t;
+	}
+	flattencond(s, cond, lbody, lend);    /* repeat? */
 	flatten(s, lend);             	/* exit */
-	draininc(s);
 
 	s->inloop--;
 	s->loop = l;
-- 
2.43.0


From c0312ab2a257b394ef3d9d40fde38b82b73192a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 101/129] fix: impls on pointers and arrays did not satisfy
 constraints of generics

---
 parse/infer.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 12dd77e..71a4ae7 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -953,10 +953,12 @@ traitsfor(Type *base, Bitset *dst)
 				if (tymatchrank(tm->filter[i], ty) >= 0)
 					bsput(dst, tm->filtertr[i]->uid);
 			}
-			if (!tm->sub[ty->type] || ty->nsub != 1)
+			if (!ty->sub || ty->nsub != 1)
 				break;
-			tm = tm->sub[ty->type];
 			ty = ty->sub[0];
+			tm = tm->sub[ty->type];
+			if (!tm)
+				break;
 		}
 		if (base->type != Tyname)
 			break;
@@ -974,11 +976,10 @@ verifytraits(Node *ctx, Type *a, Type *b)
 	Srcloc l;
 	char *sep;
 
+	/* nothing is required of b */
+	if (!a->trneed)
+		return;
 	abs = a->trneed;
-	if (!abs) {
-		abs = mkbs();
-		traitsfor(a, abs);
-	}
 	bbs = b->trneed;
 	if (!bbs) {
 		bbs = mkbs();
@@ -1005,8 +1006,6 @@ verifytraits(Node *ctx, Type *a, Type *b)
 		fatal(ctx, "%s needs trait %s near %s%s%s",
 			bbuf, traitbuf, ctxstr(ctx), srcstr(a), srcstr(b));
 	}
-	if (!a->trneed)
-		bsfree(abs);
 	if (!b->trneed)
 		bsfree(bbs);
 }
-- 
2.43.0


From ab31713ac2be415cb7ea734658f2e24b68a6786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 102/129] fix: impls on arrays and tuples were matched to other
 sizes

---
 parse/infer.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/parse/infer.c b/parse/infer.c
index 71a4ae7..763fbd0 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -817,7 +817,7 @@ tymatchrank(Type *pat, Type *to)
 		if (pat->nmemb != to->nmemb)
 			return -1;
 		for (i = 0; i < pat->nmemb; i++) {
-			if (!nameeq(pat->udecls[i], to->udecls[i]))
+			if (!nameeq(pat->udecls[i]->name, to->udecls[i]->name))
 				return -1;
 			puc = pat->udecls[i];
 			tuc = to->udecls[i];
@@ -844,18 +844,16 @@ tymatchrank(Type *pat, Type *to)
 		}
 		break;
 	case Tyarray:
-		/* unsized arrays are ok */
-		if (pat->asize && to->asize) {
-			if (!!litvaleq(pat->asize->expr.args[0], to->asize->expr.args[0]))
-				return -1;
-		} else if (pat->asize != to->asize) {
+		if (arraysz(pat->asize) != arraysz(to->asize))
 			return -1;
-		}
-		else return tymatchrank(pat->sub[0], to->sub[0]);
+		q = tymatchrank(pat->sub[0], to->sub[0]);
+		if (q < 0)
+			return -1;
+		match = q + 1;
 		break;
 	default:
 		if (pat->nsub != to->nsub)
-			break;
+			return -1;
 		if (pat->type == to->type)
 			match = 1;
 		for (i = 0; i < pat->nsub; i++) {
-- 
2.43.0


From da6df834c6d890b815e6373f754ec56d5687ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 103/129] fix: impls on parameterized types were not found

---
 parse/infer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/infer.c b/parse/infer.c
index 763fbd0..85a5bcf 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -2979,7 +2979,7 @@ addtraittab(Traitmap *m, Trait *tr, Type *ty)
 			}
 			bsput(bs, tr->uid);
 		} else {
-			lappend(&mm->filter, &m->nfilter, ty);
+			lappend(&mm->filter, &mm->nfilter, ty);
 			lappend(&mm->filtertr, &m->nfiltertr, tr);
 		}
 		break;
-- 
2.43.0


From dec68f08211a72c54c4b8a91483809620f746e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 104/129] fix: different type parameters of a generic unified
 with each other

---
 parse/infer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 85a5bcf..27b40f5 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -1221,6 +1221,9 @@ unify(Node *ctx, Type *u, Type *v)
 		if (a->type == Tyname)
 			if (!nameeq(a->name, b->name))
 				typeerror(a, b, ctx, "incompatible types");
+		if (a->type == Typaram)
+			if (!streq(a->pname, b->pname))
+				typeerror(a, b, ctx, "different type parameters");
 		if (hasargs(a) && hasargs(b)) {
 			/* Only Tygeneric and Tyname should be able to unify. And they
 			 * should have the same names for this to be true. */
-- 
2.43.0


From cbe5ef5949481db9e68e48ed7998289eaffa1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 105/129] fix: constraints of type parameters were lost on
 locals and nested functions of generics

---
 parse/infer.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/parse/infer.c b/parse/infer.c
index 27b40f5..86630ee 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -343,6 +343,23 @@ setsuperenv(Tyenv *e, Tyenv *super)
 		e->super = super;
 }
 
+/* Type parameters mentioned by a local are those of the enclosing generic. */
+static void
+bindouter(Tyenv *env)
+{
+	Type *t;
+	size_t i, n;
+	void **k;
+
+	if (!env || !curenv())
+		return;
+	k = htkeys(env->tab, &n);
+	for (i = 0; i < n; i++)
+		if ((t = boundtype(k[i])) != NULL)
+			htput(env->tab, k[i], t);
+	free(k);
+}
+
 /* Set a scope's enclosing scope up correctly. */
 static void
 setsuper(Stab *st, Stab *super)
@@ -2092,6 +2109,8 @@ infernode(Node **np, Type *ret, int *sawret)
 		if (n->decl.isgeneric)
 			ingeneric++;
 		indentdepth++;
+		if (!n->decl.isgeneric)
+			bindouter(n->decl.env);
 		setsuperenv(n->decl.env, curenv());
 		pushenv(n->decl.env);
 		inferdecl(n);
@@ -2168,6 +2187,7 @@ infernode(Node **np, Type *ret, int *sawret)
 	case Nfunc:
 		setsuper(n->func.scope, curstab());
 		pushstab(n->func.scope);
+		bindouter(n->func.env);
 		setsuperenv(n->func.env, curenv());
 		pushenv(n->func.env);
 		inferstab(n->func.scope);
-- 
2.43.0


From cf0fd9659dbe9bcf2b9cb96233ddb9963eb644e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 106/129] fix: casting the result of an unsigned / % or >> to a
 signed type of its size computed it signed, and the reverse

---
 6/simp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/6/simp.c b/6/simp.c
index 4fb0212..a0c5b8a 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -580,6 +580,9 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 			r = mkexpr(from->loc, Oswiden, r, NULL);
 		else
 			r = mkexpr(from->loc, Ozwiden, r, NULL);
+	} else if (exprop(r) != Ovar && exprop(r) != Olit && exprop(r) != Oderef) {
+		/* retyping the operation could change its signedness */
+		r = mkexpr(from->loc, Otrunc, r, NULL);
 	}
 	r->expr.type = to;
 	return r;
-- 
2.43.0


From 09f68c212d9165ab1d277bc2eade892a707c10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 107/129] fix: lib/math mixed the signed and unsigned type
 parameters

---
 lib/math/exp-impl.myr    | 6 +++---
 lib/math/log-impl.myr    | 6 +++---
 lib/math/pown-impl.myr   | 4 ++--
 lib/math/scale2-impl.myr | 6 +++---
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/math/exp-impl.myr b/lib/math/exp-impl.myr
index 877abeb..b41805d 100644
--- a/lib/math/exp-impl.myr
+++ b/lib/math/exp-impl.myr
@@ -240,7 +240,7 @@ generic expgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating,std.equata
 	   exact, without need for an FMA. R1 + R2 will approximate
 	   (very well) f reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -346,7 +346,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   As in the exp case, R1 + R2 very well approximates f
 	   reduced into [ -ln(2)/64, ln(2)/64 ]
 	 */
-	if std.abs(N) >= (1 << d.nabs)
+	if std.abs(N) >= (1 << (d.nabs : @i))
 		R1 = (x - (N1 : @f) * d.frombits(d.L1)) - ((N2 : @f) * d.frombits(d.L1))
 	else
 		R1 = x - (N : @f) * d.frombits(d.L1)
@@ -373,7 +373,7 @@ generic expm1gen = {x : @f, d : fltdesc(@f, @u, @i) :: \
 	   underflow flag when not technically required. We currently
 	   do not care about such flags, so that logic is omitted.
 	 */
-	if M >= d.precision
+	if M >= (d.precision : @i)
 		-> scale2(S_hi + (S * P + (S_lo - scale2(1.0, -M))), M)
 	elif M <= -8
 		-> scale2(S_hi + (S * P + S_lo), M) - (1.0 : @f)
diff --git a/lib/math/log-impl.myr b/lib/math/log-impl.myr
index f2ff68e..4f4a1f2 100644
--- a/lib/math/log-impl.myr
+++ b/lib/math/log-impl.myr
@@ -431,7 +431,7 @@ generic loggen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, numeri
 		var first_1 = find_first1_64((s : uint64), (d.precision : int64))
 		var offset = (d.precision : @u) - 1 - (first_1 : @u)
 		s = s << offset
-		e = d.emin - offset
+		e = d.emin - (offset : @i)
 	;;
 
 	m = e
@@ -494,7 +494,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	   example: 1 + x might be infinity).
 	 */
 	var Y, m, F, f
-	if e > d.T3exp
+	if e > (d.T3exp : @i)
 		Y = x
 	else
 		Y = (1.0 : @f) + x
@@ -520,7 +520,7 @@ generic log1pgen = {x : @f, d : fltdesc(@f, @u, @i) :: numeric,floating @f, nume
 	 */
 	if m <= -2
 		f = Y - F
-	elif m <= d.precision - 1
+	elif m <= (d.precision : @i) - 1
 		f = (d.assem(false, -m, 0) - F) + scale2(x, -m)
 	else
 		f = (scale2(x, -m) - F) + d.assem(false, -m, 0)
diff --git a/lib/math/pown-impl.myr b/lib/math/pown-impl.myr
index 6dfec19..b7511a2 100644
--- a/lib/math/pown-impl.myr
+++ b/lib/math/pown-impl.myr
@@ -365,13 +365,13 @@ generic rootngen = {x : @f, q : @u, d : fltdesc(@f, @u, @i) :: numeric,floating,
 	(G1, G2) = d.split_mul(ln_xs_hi, ln_xs_lo, qinv_hi, qinv_lo)
 
 	var E : @i
-	if q > std.abs(xe)
+	if q > (std.abs(xe) : @u)
 		/* Don't cast q to @i unless we're sure it's in small range */
 		E = 0
 	else
 		E = xe / (q : @i)
 	;;
-	var qpsi = xe - q * E
+	var qpsi = xe - (q : @i) * E
 	var psi_hi = (qpsi : @f) / qf
 	var psi_lo = -math.fma(psi_hi, qf, -(qpsi : @f)) / qf
 	var log2_hi, log2_lo
diff --git a/lib/math/scale2-impl.myr b/lib/math/scale2-impl.myr
index f75aac8..77a1048 100644
--- a/lib/math/scale2-impl.myr
+++ b/lib/math/scale2-impl.myr
@@ -36,12 +36,12 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 		var sprime = s
 		var eprime = e
 		if e < emin
-			sprime = s >> (-m)
+			sprime = s >> (-m : @u)
 			if need_round_away(0, (s : uint64), (-m : int64))
 				sprime++
 			;;
 			eprime = emin - 1
-		elif e + m < emin - p - 2
+		elif e + m < emin - (p : @i) - 2
 			sprime = 0
 			eprime = emin - 1
 		elif e + m < emin
@@ -64,7 +64,7 @@ generic scale2gen = {n : bool, e : @i, s : @u, emin : @i, emax : @i, p : @u, m :
 			m -= (shift : @i)
 			e = emin
 		else
-			-> (n, e, s << m)
+			-> (n, e, s << (m : @u))
 		;;
 	;;
 
-- 
2.43.0


From 59ee2f538f3023dbd1fd8539a7a103b693622a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 108/129] fix: an impl for a parameterized type was ambiguous
 with one for every type

---
 parse/infer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/infer.c b/parse/infer.c
index 86630ee..af0a076 100644
--- a/parse/infer.c
+++ b/parse/infer.c
@@ -853,6 +853,7 @@ tymatchrank(Type *pat, Type *to)
 			return -1;
 		if (pat->narg != to->narg)
 			return -1;
+		match = 1;
 		for (i = 0; i < pat->narg; i++) {
 			q = tymatchrank(pat->arg[i], to->arg[i]);
 			if (q < 0)
-- 
2.43.0


From 80c8f96d1c6442cb3ec1c7bd202c91d7681965bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 109/129] fix: < and <= are false if an operand is a NaN

---
 6/isel.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/6/isel.c b/6/isel.c
index 9be0971..5d46e08 100644
--- a/6/isel.c
+++ b/6/isel.c
@@ -59,8 +59,9 @@ struct {
 	[Ofne] = {Icomis, Ijnz, Isetnz},
 	[Ofgt] = {Icomis, Ija,  Iseta},
 	[Ofge] = {Icomis, Ijae, Isetae},
-	[Oflt] = {Icomis, Ijb,  Isetb},
-	[Ofle] = {Icomis, Ijbe, Isetbe},
+	/* operands are swapped, so that unordered values compare false */
+	[Oflt] = {Icomis, Ija,  Iseta},
+	[Ofle] = {Icomis, Ijae, Isetae},
 };
 
 static Mode
@@ -342,7 +343,7 @@ inri(Isel *s, Loc *a)
 static void
 selcjmp(Isel *s, Node *n, Node **args)
 {
-	Loc *a, *b;
+	Loc *a, *b, *t;
 	Loc *l1, *l2;
 	AsmOp cond, jmp;
 
@@ -356,6 +357,11 @@ selcjmp(Isel *s, Node *n, Node **args)
 			b = selexpr(s, args[0]->expr.args[1]);
 		else
 			b = a;
+		if (exprop(args[0]) == Oflt || exprop(args[0]) == Ofle) {
+			t = a;
+			a = b;
+			b = t;
+		}
 		a = newr(s, a);
 	} else {
 		cond = Itest;
@@ -910,7 +916,7 @@ rolop(Isel *s, Node *n, Node *l, Node *r)
 Loc *
 selexpr(Isel *s, Node *n)
 {
-	Loc *a, *b, *c, *d, *r;
+	Loc *a, *b, *c, *d, *r, *t;
 	Loc *edx, *cl; /* x86 wants some hard-coded regs */
 	Node **args;
 	size_t al;
@@ -1064,6 +1070,11 @@ selexpr(Isel *s, Node *n)
 	case Oueq: case Oune: case Ougt: case Ouge: case Oult: case Oule:
 		a = selexpr(s, args[0]);
 		b = selexpr(s, args[1]);
+		if (exprop(n) == Oflt || exprop(n) == Ofle) {
+			t = a;
+			a = b;
+			b = t;
+		}
 		a = newr(s, a);
 		c = locreg(ModeB);
 		r = locreg(mode(n));
-- 
2.43.0


From 4601da0e1f3587c16e38e193b18d376f2e2be784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 110/129] fix: convert between floats and every type of integer

---
 6/simp.c | 77 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 73 insertions(+), 4 deletions(-)

diff --git a/6/simp.c b/6/simp.c
index a0c5b8a..f09c66a 100644
--- a/6/simp.c
+++ b/6/simp.c
@@ -588,6 +588,77 @@ intconvert(Simp *s, Node *from, Type *to, int issigned)
 	return r;
 }
 
+static Node *
+fltop(Op op, Node *a, Node *b, Type *ty)
+{
+	Node *n;
+
+	n = mkexpr(a->loc, op, a, b, NULL);
+	n->expr.type = ty;
+	return n;
+}
+
+/* The conversion instructions only know of signed 32 and 64 bit integers,
+ * so other types go through an int64. */
+static Node *
+inttoflt(Simp *s, Node *val, Type *to)
+{
+	Node *r, *x, *m, *k;
+	Type *from, *i64;
+
+	from = tybase(exprtype(val));
+	if (tysize(from) < 8) {
+		i64 = mktype(val->loc, Tyint64);
+		r = intconvert(s, val, i64, istysigned(from));
+		return fltop(Oint2flt, r, NULL, to);
+	}
+	r = rval(s, val, NULL);
+	if (istysigned(from))
+		return fltop(Oint2flt, r, NULL, to);
+	/* values with the top bit set are halved, keeping the lost bit
+	 * for the rounding, and the result is doubled */
+	x = temp(s, val);
+	append(s, set(x, r));
+	m = temp(s, val);
+	k = mkintlit(val->loc, 63);
+	k->expr.type = exprtype(val);
+	append(s, set(m, fltop(Obsr, x, k, from)));
+	r = fltop(Obor, fltop(Obsr, x, m, from), fltop(Oband, x, m, from), from);
+	r = fltop(Oint2flt, r, NULL, to);
+	return fltop(Ofmul, r, fltop(Oint2flt, addk(m, 1), NULL, to), to);
+}
+
+static Node *
+flttoint(Simp *s, Node *val, Type *to)
+{
+	Node *r, *x, *m, *k, *lim;
+	Type *from, *i64;
+
+	from = tybase(exprtype(val));
+	r = rval(s, val, NULL);
+	if (istysigned(to) && tysize(to) >= 4)
+		return fltop(Oflt2int, r, NULL, to);
+	if (tysize(to) < 8) {
+		i64 = mktype(val->loc, Tyint64);
+		return fltop(Otrunc, fltop(Oflt2int, r, NULL, i64), NULL, to);
+	}
+	/* values of at least 2^63 are converted without the top bit */
+	x = temp(s, val);
+	append(s, set(x, r));
+	lim = mkexpr(val->loc, Olit, mkfloat(val->loc, 9223372036854775808.0), NULL);
+	lim->expr.type = from;
+	lim->expr.args[0]->lit.type = from;
+	lim = rval(s, lim, NULL);
+	r = fltop(Ofge, x, lim, mktype(val->loc, Tybool));
+	k = mkintlit(val->loc, 63);
+	k->expr.type = to;
+	m = gentemp(val->loc, to, NULL);
+	append(s, set(m, fltop(Ozwiden, r, NULL, to)));
+	r = fltop(Ofmul, fltop(Oint2flt, m, NULL, from), lim, from);
+	r = fltop(Oflt2int, fltop(Ofsub, x, r, from), NULL, to);
+	return add(r, fltop(Obsl, m, k, to));
+}
+
 static Node *
 simpcast(Simp *s, Node *val, Type *to)
 {
@@ -638,8 +709,7 @@ simpcast(Simp *s, Node *val, Type *to)
 			if (tybase(to)->type == Typtr)
 				fatal(val, "bad cast from %s to %s",
 						tystr(exprtype(val)), tystr(to));
-			r = mkexpr(val->loc, Oflt2int, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = flttoint(s, val, to);
 			break;
 		default:
 			fatal(val, "bad cast from %s to %s",
@@ -651,8 +721,7 @@ simpcast(Simp *s, Node *val, Type *to)
 		case Tyint8: case Tyint16: case Tyint32: case Tyint64:
 		case Tyuint8: case Tyuint16: case Tyuint32: case Tyuint64:
 		case Tyint: case Tyuint: case Tychar: case Tybyte:
-			r = mkexpr(val->loc, Oint2flt, rval(s, val, NULL), NULL);
-			r->expr.type = to;
+			r = inttoflt(s, val, to);
 			break;
 		case Tyflt32: case Tyflt64:
 			r = mkexpr(val->loc, Oflt2flt, rval(s, val, NULL), NULL);
-- 
2.43.0


From 74a14d56d9a4599cb5e590b61322e6e4c5287800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:33 +0000
Subject: [PATCH 111/129] fix: a flt32 converted to an integer was taken for a
 flt64

---
 6/insns.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/6/insns.def b/6/insns.def
index cc80adf..39e8881 100644
--- a/6/insns.def
+++ b/6/insns.def
@@ -235,7 +235,7 @@ Insn(Imovs,
     Use(.l={1}),
     Def(.l={2}))
 Insn(Icvttsd2si,
-    "\tcvttsd2si%2t %x,%r\n",
+    "\tcvtts%1t2si%2t %x,%r\n",
     "\tCVTTS%T2S%2T %X,%R\n",
     Use(.l={1}),
     Def(.l={2}))
-- 
2.43.0


From 041c79137964b17e69510866fb9af8b0a718ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:38 +0000
Subject: [PATCH 112/129] fix: iter.byperm aborted on an empty sequence

---
 lib/iter/perm.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/iter/perm.myr b/lib/iter/perm.myr
index 0ac8cb6..09dc5df 100644
--- a/lib/iter/perm.myr
+++ b/lib/iter/perm.myr
@@ -44,7 +44,7 @@ impl iterable permiter(@a) -> @a[:] =
 		 */
 		j = seq.len - 1
 		while true
-			if j == 0
+			if j <= 0
 				-> false
 			;;
 			j--
-- 
2.43.0


From 64af8225c6b6cc18d9acf85757b55647d064ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 113/129] fix: a byte 0xff in a string literal was taken for
 the end of the file

---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index 8b40dc2..e32d238 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -33,7 +33,7 @@ peekn(int n)
 	if (fidx + n >= fbufsz)
 		return End;
 	else
-		return fbuf[fidx + n];
+		return (unsigned char)fbuf[fidx + n];
 }
 
 static int
-- 
2.43.0


From d229141ba92e254c36236c1244148abee0a8b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 114/129] fix: malformed floating point literals such as 1.2.3
 or 1e lost their end

---
 parse/tok.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tok.c b/parse/tok.c
index e32d238..13bbd9f 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -711,7 +711,7 @@ number(int base)
 		t = mktok(Tfloatlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
 		t->fltval = strtod(buf, &endp);
-		if (endp == buf)
+		if (endp == buf || *endp)
 			lfatal(curloc, "%s is not a valid floating point value", buf);
 	} else {
 		t = mktok(Tintlit);
-- 
2.43.0


From 461b885f5adb29ca77a419feaeed758295076ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 115/129] fix: identifiers of 1024 characters or more
 overflowed a buffer and were split

---
 parse/tok.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse/tok.c b/parse/tok.c
index 13bbd9f..a8b2be0 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -228,10 +228,12 @@ static int
 identstr(char *buf, size_t sz)
 {
 	size_t i;
-	char c;
+	int c;
 
 	i = 0;
-	for (c = peek(); i < sz && identchar(c); c = peek()) {
+	for (c = peek(); identchar(c); c = peek()) {
+		if (i == sz - 1)
+			lfatal(curloc, "identifier too long");
 		next();
 		buf[i++] = c;
 	}
-- 
2.43.0


From 193ff1327f96052c59c6a90ab4d4d97e8142e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 116/129] fix: integer literals of more than 64 bits were
 silently changed

---
 parse/tok.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tok.c b/parse/tok.c
index a8b2be0..5657c5f 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -718,7 +718,10 @@ number(int base)
 	} else {
 		t = mktok(Tintlit);
 		t->id = strdupn(&fbuf[start], fidx - start);
+		errno = 0;
 		t->intval = strtoull(buf, &endp, base);
+		if (errno == ERANGE)
+			lfatal(curloc, "integer literal %s is too big", buf);
 		if (endp == buf)
 			lfatal(curloc, "%s is not a valid integer value", buf);
 			
-- 
2.43.0


From bd981b481d2b62481d6e487e7df8af91b341703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:37 +0000
Subject: [PATCH 117/129] fix: the suffix 'b' of decimal integer literals was
 taken for a digit

---
 parse/tok.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/tok.c b/parse/tok.c
index 5657c5f..19df365 100644
--- a/parse/tok.c
+++ b/parse/tok.c
@@ -678,6 +678,9 @@ number(int base)
 	 */
 	maybefloat = !curtok || (curtok->type != Tdot);
 	for (c = peek(); isxdigit(c) || (maybefloat && c == '.') || c == '_'; c = peek()) {
+		/* suffix */
+		if (base != 16 && (c == 'b' || c == 'B'))
+			break;
 		next();
 		if (c == '_')
 			continue;
-- 
2.43.0


From be14603d2dd3957dccdbfb12b84bbfd478fa8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:30 +0000
Subject: [PATCH 118/129] fix: the base of a slice without upper bound was
 evaluated twice

---
 mi/flatten.c | 14 ++++++++++++++
 parse/node.c |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/mi/flatten.c b/mi/flatten.c
index 48ac42d..db3501e 100644
--- a/mi/flatten.c
+++ b/mi/flatten.c
@@ -570,6 +570,20 @@ rval(Flattenctx *s, Node *n)
 		r = mkexpr(n->loc, Oidx, t, u, NULL);
 		r->expr.type = n->expr.type;
 		break;
+	case Oslice:
+		/* foo()[lo:] has an implied foo().len as its upper bound */
+		t = args[2];
+		if (exprop(t) == Omemb && t->expr.idx) {
+			if (exprop(args[0]) != Ovar && tybase(exprtype(args[0]))->type == Tyslice) {
+				u = temp(s, args[0]);
+				append(s, asn(u, rval(s, args[0])));
+				args[0] = u;
+			}
+			t->expr.args[0] = args[0];
+			t->expr.idx = NULL;
+		}
+		r = visit(s, n);
+		break;
 		/* array.len slice.len are magic 'virtual' members.
 		 * they need to be special cased. */
 	case Omemb:
diff --git a/parse/node.c b/parse/node.c
index b3cef6c..9c69070 100644
--- a/parse/node.c
+++ b/parse/node.c
@@ -93,8 +93,11 @@ mksliceexpr(Srcloc loc, Node *sl, Node *base, Node *off)
 {
 	if (!base)
 		base = mkintlit(loc, 0);
-	if (!off)
+	if (!off) {
 		off = mkexpr(loc, Omemb, sl, mkname(loc, "len"), NULL);
+		/* mark the implied length: sl should only be evaluated once */
+		off->expr.idx = mkintlit(loc, 0);
+	}
 	return mkexpr(loc, Oslice, sl, base, off, NULL);
 }
 
-- 
2.43.0


From 1e310f9d0b9bdf3c7bf7f9c0233141eb8fd01b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:05 +0000
Subject: [PATCH 119/129] fix: impls of a trait merged before them were lost to
 users of the package

---
 parse/use.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse/use.c b/parse/use.c
index 58d6035..9c881ab 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -1016,6 +1016,8 @@ foundextlib:
 		case 'R':
 			tr = traitunpickle(f);
 			tr->vis = vis;
+			if (!hthas(trdeduptab, tr->name))
+				htput(trdeduptab, tr->name, tr);
 			puttrait(s, tr->name, tr);
 			for (i = 0; i < tr->nproto; i++) {
 				putdcl(s, tr->proto[i]);
-- 
2.43.0


From 48bad33df0d811d77a4dc7ae1087efeb4db63a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:00 +0000
Subject: [PATCH 120/129] fix: chacha20 dropped a final partial block

---
 lib/crypto/chacha20.myr | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/crypto/chacha20.myr b/lib/crypto/chacha20.myr
index 371e39b..0c97c5d 100644
--- a/lib/crypto/chacha20.myr
+++ b/lib/crypto/chacha20.myr
@@ -51,6 +51,7 @@ const chacha20encrypt = {x, m, c
 	var j0, j1, j2, j3, j4, j5, j6, j7, j8, j9, j10, j11, j12, j13, j14, j15 : uint32;
 	var ctarget = [][:]
 	var tmp : byte[64];
+	var tail = 0
 
 	std.assert(m.len == c.len, "mismatch between message and ciphertext lengths\n")
 	j0 = x.input[0]
@@ -72,6 +73,8 @@ const chacha20encrypt = {x, m, c
 
 	while true
 		if m.len < 64
+			tail = m.len
+			std.slfill(tmp[:], 0)
 			std.slcp(tmp[:m.len], m)
 			m = tmp[:]
 			ctarget = c
@@ -224,8 +227,8 @@ const chacha20encrypt = {x, m, c
 		std.putle32(c[60:64], x15);
 
 		if m.len <= 64
-			if m.len < 64
-				std.slcp(ctarget[:m.len], c)
+			if ctarget.len > 0
+				std.slcp(ctarget, c[:tail])
 			;;
 			x.input[12] = j12;
 			x.input[13] = j13;
-- 
2.43.0


From 104e12090d00b05ab62cfd4f72682e415b8cecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:28 +0000
Subject: [PATCH 121/129] fix: chacha20 skipped a block of its key stream on an
 empty message

---
 lib/crypto/chacha20.myr | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/crypto/chacha20.myr b/lib/crypto/chacha20.myr
index 0c97c5d..a96f841 100644
--- a/lib/crypto/chacha20.myr
+++ b/lib/crypto/chacha20.myr
@@ -54,6 +54,9 @@ const chacha20encrypt = {x, m, c
 	var tail = 0
 
 	std.assert(m.len == c.len, "mismatch between message and ciphertext lengths\n")
+	if m.len == 0
+		-> void
+	;;
 	j0 = x.input[0]
 	j1 = x.input[1]
 	j2 = x.input[2]
-- 
2.43.0


From 2a32477c29466c4e9817821a7328b32d8a75d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 122/129] fix: generic impls of other packages' traits could
 not refer to their own package

---
 parse/export.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/export.c b/parse/export.c
index fb7b05f..67441fd 100644
--- a/parse/export.c
+++ b/parse/export.c
@@ -171,6 +171,9 @@ tagnode(Stab *st, Node *n, int ingeneric, int hidelocal)
 		/* generics need to have the decls they refer to exported. */
 		if (ingeneric && exprop(n) == Ovar) {
 			d = decls[n->expr.did];
+			/* they may be specialized in the namespace of another package's trait */
+			if (d->decl.isglobl && !n->expr.args[0]->name.ns && d->decl.name->name.ns)
+				setns(n->expr.args[0], d->decl.name->name.ns);
 			if (d->decl.isglobl && d->decl.vis == Visintern) {
 				d->decl.vis = Vishidden;
 				tagnode(st, d, ingeneric, hidelocal);
-- 
2.43.0


From 2d4e5150e8189a2dc737fb2aca1bdeb89246ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:38 +0000
Subject: [PATCH 123/129] fix: constants of generic impls were taken from any
 impl of the trait

---
 parse/specialize.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index c3fb82a..cac5ab0 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -497,7 +497,7 @@ genericname(Node *n, Type *param, Type *t)
 }
 
 static Node *
-bestimpl(Node *n, Type *to)
+bestimpl(Node *n, Type *param, Type *to, Type **gtype)
 {
 	Node **gimpl, **ambig, *match;
 	size_t ngimpl, nambig, i;
@@ -513,11 +513,16 @@ bestimpl(Node *n, Type *to)
 	gimpl = n->decl.gimpl;
 	ngimpl = n->decl.ngimpl;
 	for (i = 0; i < ngimpl; i++) {
-		score = tymatchrank(decltype(gimpl[i]), to);
+		/* the types of constants don't tell which impl they are of */
+		if (param && !hasparams(decltype(gimpl[i])))
+			score = tymatchrank((Type *)n->decl.gtype[i], param);
+		else
+			score = tymatchrank(decltype(gimpl[i]), to);
 		if (score > best) {
 			lfree(&ambig, &nambig);
 			best = score;
 			match = gimpl[i];
+			*gtype = (Type *)n->decl.gtype[i];
 		} else if (score == best) {
 			lappend(&ambig, &nambig, gimpl[i]);
 		}
@@ -540,6 +545,7 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	Tysubst *tsmap;
 	Node *g, *d, *n;
 	Stab *st;
+	Type *gtype;
 
 	assert(gnode->type == Ndecl);
 	assert(gnode->decl.isgeneric);
@@ -555,8 +561,9 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	d = getdcl(st, n);
 	if (d)
 		return d;
+	gtype = NULL;
 	if (gnode->decl.trait) {
-		g = bestimpl(gnode, to);
+		g = bestimpl(gnode, param, to, &gtype);
 		if (!g)
 			fatal(gnode, "type %s does not implement %s:%s",
 				tystr(param), namestr(gnode->decl.name), tystr(to));
@@ -572,6 +579,8 @@ specializedcl(Node *gnode, Type *param, Type *to, Node **name)
 	/* specialize */
 	tsmap = mksubst();
 	fillsubst(tsmap, to, g->decl.type);
+	if (gtype && param && !hasparams(g->decl.type))
+		fillsubst(tsmap, param, gtype);
 
 	d = mkdecl(g->loc, n, tysubst(g->decl.type, tsmap));
 	d->decl.isconst = g->decl.isconst;
-- 
2.43.0


From f28abc28e1840986f5342d1ee6e0ed8176e7be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 124/129] fix: the labels of a generic clashed when it was used
 with more than one type

---
 parse/specialize.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parse/specialize.c b/parse/specialize.c
index cac5ab0..185ec58 100644
--- a/parse/specialize.c
+++ b/parse/specialize.c
@@ -14,6 +14,7 @@
 #include "parse.h"
 
 static Node *specializenode(Node *g, Tysubst *tsmap);
+static int fnid; /* distinguishes the labels of each copy of a function */
 static void fillsubst(Tysubst *tsmap, Type *to, Type *from);
 
 static void
@@ -340,9 +341,23 @@ fixup(Node *n)
  * need to be specialized to make it concrete
  * instead of generic, and returns it.
  */
+static char *
+copylbl(char *lbl)
+{
+	char *s;
+	size_t sz;
+
+	sz = strlen(lbl) + 32;
+	s = xalloc(sz);
+	bprintf(s, sz, "%s.%d", lbl, fnid);
+	return s;
+}
+
 static Node *
 specializenode(Node *n, Tysubst *tsmap)
 {
+	static int nfnid;
+	int id;
 	Node *r;
 	size_t i;
 
@@ -379,7 +394,7 @@ specializenode(Node *n, Tysubst *tsmap)
 		case Lint:	r->lit.intval = n->lit.intval;	break;
 		case Lflt:	r->lit.fltval = n->lit.fltval;	break;
 		case Lstr:	r->lit.strval = n->lit.strval;	break;
-		case Llbl:	r->lit.lblval = n->lit.lblval;	break;
+		case Llbl:	r->lit.lblval = copylbl(n->lit.lblval);	break;
 		case Lbool:	r->lit.boolval = n->lit.boolval;	break;
 		case Lfunc:	r->lit.fnval = specializenode(n->lit.fnval, tsmap);	break;
 		}
@@ -447,6 +462,8 @@ specializenode(Node *n, Tysubst *tsmap)
 		popenv(r->decl.env);
 		break;
 	case Nfunc:
+		id = fnid;
+		fnid = ++nfnid;
 		r->func.scope = mkstab(1);
 		r->func.scope->super = curstab();
 		r->func.env = n->func.env;
@@ -460,6 +477,7 @@ specializenode(Node *n, Tysubst *tsmap)
 		r->func.body = specializenode(n->func.body, tsmap);
 		popenv(r->func.env);
 		popstab();
+		fnid = id;
 		break;
 	case Nimpl:
 		die("trait/impl not implemented");
-- 
2.43.0


From d768aff912e0d6574fdc54719d47ce00106b6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:56 +0000
Subject: [PATCH 125/129] fix: integer literals in exported generics were cut
 to 32 bits

---
 parse/parse.h |  2 +-
 parse/use.c   |  4 ++--
 util/pack.c   | 16 ++++++++++++++++
 util/util.h   |  2 ++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parse/parse.h b/parse/parse.h
index e3b402f..b45118c 100644
--- a/parse/parse.h
+++ b/parse/parse.h
@@ -1,4 +1,4 @@
-#define Abiversion 23
+#define Abiversion 24
 
 typedef struct Srcloc Srcloc;
 typedef struct Tysubst Tysubst;
diff --git a/parse/use.c b/parse/use.c
index 9c881ab..4865537 100644
--- a/parse/use.c
+++ b/parse/use.c
@@ -528,7 +528,7 @@ pickle(FILE *fd, Node *n)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	wrint(fd, n->lit.chrval);	break;
-		case Lint:	wrint(fd, n->lit.intval);	break;
+		case Lint:	wrvlong(fd, n->lit.intval);	break;
 		case Lflt:	wrflt(fd, n->lit.fltval);	break;
 		case Lstr:	wrlenstr(fd, n->lit.strval);	break;
 		case Llbl:	wrstr(fd, n->lit.lblval);	break;
@@ -651,7 +651,7 @@ unpickle(FILE *fd)
 		switch (n->lit.littype) {
 		case Lvoid:	break;
 		case Lchr:	n->lit.chrval = rdint(fd);	break;
-		case Lint:	n->lit.intval = rdint(fd);	break;
+		case Lint:	n->lit.intval = rdvlong(fd);	break;
 		case Lflt:	n->lit.fltval = rdflt(fd);	break;
 		case Lstr:	rdlenstr(fd, &n->lit.strval);	break;
 		case Llbl:	n->lit.lblval = rdstr(fd);	break;
diff --git a/util/pack.c b/util/pack.c
index 6457ba0..1333cee 100644
--- a/util/pack.c
+++ b/util/pack.c
@@ -128,6 +128,22 @@ rdint(FILE *fd)
 	return host32(buf);
 }
 
+void
+wrvlong(FILE *fd, vlong val)
+{
+	byte buf[8];
+	be64(val, buf);
+	wrbuf(fd, buf, 8);
+}
+
+vlong
+rdvlong(FILE *fd)
+{
+	byte buf[8];
+	rdbuf(fd, buf, 8);
+	return host64(buf);
+}
+
 void
 wrstr(FILE *fd, char *val)
 {
diff --git a/util/util.h b/util/util.h
index be09dfc..1793949 100644
--- a/util/util.h
+++ b/util/util.h
@@ -148,6 +148,8 @@ void wrbyte(FILE *fd, char val);
 char rdbyte(FILE *fd);
 void wrint(FILE *fd, long val);
 long rdint(FILE *fd);
+void wrvlong(FILE *fd, vlong val);
+vlong rdvlong(FILE *fd);
 void wrstr(FILE *fd, char *val);
 char *rdstr(FILE *fd);
 void wrlenstr(FILE *fd, Str str);
-- 
2.43.0


From 485ea48d62006d623642f063fea9f598b47bc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:21 +0000
Subject: [PATCH 126/129] fix: constant time lt was wrong for operands more
 than half the range apart

---
 lib/crypto/ct.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ct.myr b/lib/crypto/ct.myr
index 80ad13e..2ac4764 100644
--- a/lib/crypto/ct.myr
+++ b/lib/crypto/ct.myr
@@ -44,7 +44,7 @@ generic ge = {a, b
 generic lt = {a, b
 	const nshift = 8*sizeof(@t) - 1
 	var z = (a - b) 
-	-> (z ^ ((b ^ a) & (b ^ a))) >> nshift;
+	-> (z ^ ((b ^ a) & (b ^ z))) >> nshift;
 }
 
 generic le = {a, b
-- 
2.43.0


From 29c8f3b342607a3d9b8ba45c0f2240beb2ff2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:21 +0000
Subject: [PATCH 127/129] fix: ctiszero only looked at the lowest bit of each
 digit

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index 89d0caa..edf3f36 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -496,7 +496,7 @@ const ctiszero = {a
 
 	z = 1
 	for var i = 0; i < a.dig.len; i++
-		zz = mux(a.dig[i], 0, 1)
+		zz = eq(a.dig[i], 0)
 		z = mux(zz, z, 0)
 	;;
 	-> (z : bool)
-- 
2.43.0


From 75d5a19e845e2a0f094ec9a8f55cb79e807b084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:21 +0000
Subject: [PATCH 128/129] fix: mkctbign left the digits above 64 bits
 uninitialized

---
 lib/crypto/ctbig.myr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index edf3f36..cf03c9c 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -76,7 +76,7 @@ generic mkctbign = {v : @a, nbit : std.size :: integral,numeric @a
 
 	val = (v : uint64)
 	a.nbit = nbit
-	a.dig = std.slalloc(ndig(nbit))
+	a.dig = std.slzalloc(ndig(nbit))
 	if nbit > 0
 		a.dig[0] = (val : uint32)
 	;;
-- 
2.43.0


From c6fe7138c925f8aa832fe453a3273b8061896b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:36 +0000
Subject: [PATCH 129/129] fix: ctbytesle and ctbytesbe aborted on sizes that
 are no multiple of a digit

---
 lib/crypto/ctbig.myr | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/crypto/ctbig.myr b/lib/crypto/ctbig.myr
index cf03c9c..637ec3f 100644
--- a/lib/crypto/ctbig.myr
+++ b/lib/crypto/ctbig.myr
@@ -175,7 +175,7 @@ const ctbytesle = {v
 	o = 0
 	n = (v.nbit + 7) / 8
 	ret = std.slalloc(n)
-	for i = 0; i * 4  < n; i++
+	for i = 0; i * 4 + 4 <= n; i++
 		d = v.dig[i]
 		ret[o++] = (d >>  0 : byte)
 		ret[o++] = (d >>  8 : byte)
@@ -183,9 +183,9 @@ const ctbytesle = {v
 		ret[o++] = (d >> 24 : byte)
 	;;
 
-	if i * 4 != n
+	if o != n
 		d = v.dig[i]
-		for ; i < n; i++
+		while o < n
 			ret[o++] = (d : byte)
 			d >>= 8
 		;;
@@ -202,8 +202,8 @@ const ctbytesbe = {v : ctbig#
 	ret = std.slalloc(n)
 	if n & 0x3 != 0
 		d = v.dig[i--]
-		for var j = n & 0x3 + 1; j > 0; j--
-			ret[o++] = (d >> 8*(j - 1 : uint32): byte)
+		for var j = n & 0x3; j > 0; j--
+			ret[o++] = (d >> (8*(j - 1) : uint32) : byte)
 		;;
 	;;
 	for ; i >= 0 ; i--
-- 
2.43.0

