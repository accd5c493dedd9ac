From b4a0cca508eb72347fb01e238fb00d9d300dbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 001/108] fix: write real defaults and limits without loss of
 precision

The %g format drops all but six digits and may use exponents, which ort(5)
can't parse.  Use the shortest decimal fraction that reads back the same.
---
 lang-c-source.c |  7 ++++---
 lang-json.c     |  9 ++++++---
 lang-nodejs.c   |  7 ++++---
 lang-sql.c      |  4 +++-
 lang.h          | 30 ++++++++++++++++++++++++++++++
 writer.c        | 10 ++++++----
 6 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..32284f4 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2011,6 +2011,7 @@ static int
 gen_valids_field(FILE *f,
 	const struct field *fd, const struct fvalid *v)
 {
+	char	 buf[GEN_REALSZ];
 
 	assert(v->type < VALIDATE__MAX);
 	switch (fd->type) {
@@ -2027,9 +2028,9 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
-		    "\t\treturn 0;\n",
-		    validbins[v->type], v->d.value.decimal) < 0)
+		    "\tif (p->parsed.d %s %s)\n"
+		    "\t\treturn 0;\n", validbins[v->type], 
+		    gen_real(buf, v->d.value.decimal)) < 0)
 			return 0;
 		break;
 	default:
diff --git a/lang-json.c b/lang-json.c
index d45bf02..735d85d 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -29,6 +29,7 @@
 #include <unistd.h>
 
 #include "ort.h"
+#include "lang.h"
 #include "ort-lang-json.h"
 
 static const char *const ordtypes[] = {
@@ -522,6 +523,7 @@ gen_roles(FILE *f, const struct config *cfg)
 static int
 gen_field(FILE *f, const struct field *fd)
 {
+	char		 buf[GEN_REALSZ];
 	struct fvalid	*fv;
 	unsigned int	 fl;
 
@@ -589,7 +591,8 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fprintf(f, "\"%s\"", 
+			    gen_real(buf, fd->def.decimal)) < 0)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -631,8 +634,8 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
-			    fv->d.value.decimal) < 0)
+			if (fputs(gen_real
+			    (buf, fv->d.value.decimal), f) == EOF)
 				return 0;
 			break;
 		case FTYPE_BLOB:
diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..46f7641 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1595,6 +1595,7 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 static int
 gen_ortns_express_valid(FILE *f, const struct field *fd)
 {
+	char			 buf[GEN_REALSZ];
 	const struct fvalid	*fv;
 
 	if (fputs
@@ -1646,9 +1647,9 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
-			    "\t\t\t\treturn null;\n", 
-			    vtypes[fv->type], fv->d.value.decimal) < 0)
+			    "\t\t\tif (!(nv %s %s))\n"
+			    "\t\t\t\treturn null;\n", vtypes[fv->type], 
+			    gen_real(buf, fv->d.value.decimal)) < 0)
 				return 0;
 		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..d1e04a1 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -271,6 +271,7 @@ static int
 gen_diff_field_new(FILE *f, const struct field *fd)
 {
 	int	 rc;
+	char	 buf[GEN_REALSZ];
 
 	if (fprintf(f, "ALTER TABLE %s ADD COLUMN %s %s",
 	    fd->parent->name, fd->name, ftypes[fd->type]) < 0)
@@ -305,7 +306,8 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = fputs(gen_real(buf, 
+				fd->def.decimal), f);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
diff --git a/lang.h b/lang.h
index b2ea72b..5a26f24 100644
--- a/lang.h
+++ b/lang.h
@@ -35,6 +35,36 @@ enum	langt {
 	LANG_RUST
 };
 
+/*
+ * Buffer size for gen_real(): the longest integral part (309 digits) and
+ * fractional part (1074 digits) of a double, with sign and full-stop.
+ */
+#define	GEN_REALSZ 1400
+
+/*
+ * Format a real as the shortest decimal fraction that reads back as the
+ * same number.
+ * This doesn't use exponents, which ort(5) has no syntax for.
+ * Returns "buf".
+ */
+static inline const char *
+gen_real(char buf[GEN_REALSZ], double v)
+{
+	int	 prec;
+
+	if (v > -1e15 && v < 1e15)
+		prec = 0;
+	else
+		prec = 1;
+
+	for ( ; prec <= 1074; prec++) {
+		snprintf(buf, GEN_REALSZ, "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+	return buf;
+}
+
 int	 gen_comment(FILE *, size_t, enum cmtt, const char *);
 int	 gen_commentv(FILE *, size_t, enum cmtt, const char *, ...)
 		__attribute__((format(printf, 4, 5)));
diff --git a/writer.c b/writer.c
index 7c3b094..2c6fc91 100644
--- a/writer.c
+++ b/writer.c
@@ -29,6 +29,7 @@
 #include <string.h>
 
 #include "ort.h"
+#include "lang.h"
 
 static	const char *const stypes[STYPE__MAX] = {
 	"count", /* STYPE_COUNT */
@@ -194,6 +195,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	const struct fvalid *fv;
 	unsigned int	 fl;
 	int		 rc;
+	char		 buf[GEN_REALSZ];
 
 	/* Name, type, refs. */
 
@@ -253,8 +255,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				p->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wprint(w, " default %s",
+				gen_real(buf, p->def.decimal));
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -289,8 +291,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s %s", vtypes[fv->type], 
+			    gen_real(buf, fv->d.value.decimal)))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 886928f4dfa0fbf114499c6cb39de0f6fe6441eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 002/108] fix: don't abort when formatting limits on bits
 fields

---
 lang-json.c | 1 +
 writer.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lang-json.c b/lang-json.c
index 735d85d..25ceabc 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -626,6 +626,7 @@ gen_field(FILE *f, const struct field *fd)
 			return 0;
 		switch (fd->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
diff --git a/writer.c b/writer.c
index 2c6fc91..afaf00f 100644
--- a/writer.c
+++ b/writer.c
@@ -283,6 +283,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	TAILQ_FOREACH(fv, &p->fvq, entries) 
 		switch (p->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From 2e3c8b2eab63ddf4ce9b082c5beb4741051520ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 003/108] fix: write date defaults in the format used to read
 them

Also don't overflow when reading out-of-range date components.
---
 parser_field.c |  9 ++++++---
 writer.c       | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..2b392d5 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -326,7 +326,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected year (integer)");
 					break;
-				} else if (p->last.integer > INT_MAX) {
+				} else if (p->last.integer > INT_MAX ||
+				    p->last.integer < 0) {
 					parse_errx(p, "invalid year");
 					break;
 				}
@@ -337,7 +338,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid month");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -12) {
 					parse_errx(p, "invalid month");
 					break;
 				}
@@ -348,7 +349,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				} else if (p->last.integer >= 0) {
 					parse_errx(p, "invalid day");
 					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer < -31) {
 					parse_errx(p, "invalid day");
 					break;
 				}
@@ -356,6 +357,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				tm.tm_isdst = -1;
 				fd->flags |= FIELD_HASDEF;
 				fd->def.integer = mktime(&tm); 
+				if (fd->def.integer == -1)
+					parse_errx(p, "invalid date");
 				break;
 			case FTYPE_BIT:
 			case FTYPE_BITFIELD:
diff --git a/writer.c b/writer.c
index afaf00f..15cb286 100644
--- a/writer.c
+++ b/writer.c
@@ -27,6 +27,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 #include "lang.h"
@@ -196,6 +197,8 @@ parse_write_field(struct writer *w, const struct field *p)
 	unsigned int	 fl;
 	int		 rc;
 	char		 buf[GEN_REALSZ];
+	struct tm	*tm;
+	time_t		 t;
 
 	/* Name, type, refs. */
 
@@ -248,12 +251,20 @@ parse_write_field(struct writer *w, const struct field *p)
 		switch (p->type) {
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
+		case FTYPE_DATE:
+			/* This is the inverse of when it was parsed. */
+			t = (time_t)p->def.integer;
+			if ((tm = localtime(&t)) == NULL)
+				return 0;
+			rc = wprint(w, " default %.4d-%.2d-%.2d",
+				tm->tm_year + 1900, 
+				tm->tm_mon + 1, tm->tm_mday);
+			break;
 		case FTYPE_REAL:
 			rc = wprint(w, " default %s",
 				gen_real(buf, p->def.decimal));
-- 
2.43.0


From 702a6b894a406edc20ef535a6275588dd07759e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 004/108] fix: reject input that ends within a statement or
 string literal

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..c6ca3ae 100644
--- a/parser.c
+++ b/parser.c
@@ -511,6 +511,8 @@ again:
 
 		if (parse_check_error(p))
 			return(parse_read_err(p));
+		else if (c == EOF)
+			return(parse_errx(p, "unterminated literal"));
 
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
@@ -747,6 +749,13 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* Top-level statements can't end with the input. */
+
+		if (p->lasttype == TOK_EOF) {
+			parse_errx(p, "unexpected end of file");
+			return 0;
+		}
 	}
 
 	return 1;
-- 
2.43.0


From c1e328fd9ac851bd5a7a35b46d841e530b35812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 005/108] fix: don't apply a field's noexport roles to other
 fields

A named noexport following an all-fields one was added to the map shared by
all fields.  Also don't stop merging roles at the first that's shared.
---
 linker_resolve.c | 89 +++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 51 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..ef6bfd2 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -535,8 +535,41 @@ resolve_struct_rolemap_query(struct config *cfg, struct struct_rolemap *r)
 	return 0;
 }
 
+/*
+ * Add to the rolemap "dst" all roles in "src" it doesn't already have.
+ * Returns zero on allocation failure, non-zero on success.
+ */
+static int
+resolve_struct_rolemap_post_cover(struct config *cfg,
+	struct rolemap *dst, const struct rolemap *src)
+{
+	const struct rref	*srcr;
+	struct rref		*dstr;
+
+	TAILQ_FOREACH(srcr, &src->rq, entries) {
+		TAILQ_FOREACH(dstr, &dst->rq, entries)
+			if (dstr->role == srcr->role)
+				break;
+		if (dstr != NULL)
+			continue;
+		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
+			gen_err(cfg, &srcr->pos);
+			return 0;
+		}
+		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
+		dstr->role = srcr->role;
+		dstr->pos = srcr->pos;
+		dstr->parent = dst;
+	}
+
+	return 1;
+}
+
 /*
  * Apply the noexport roles of rolemap "r" to the field "f".
+ * The roles of all-fields and named-field maps accumulate.
+ * Since the all-fields map is shared by all other fields, a named-field
+ * map always supplants it.
  * It is not an error for the field to already have the role specified
  * for it: it's just skipped.
  * Returns zero on allocation failure, non-zero on success.
@@ -545,37 +578,17 @@ static int
 resolve_struct_rolemap_field(struct config *cfg,
 	struct struct_rolemap *r, struct field *f)
 {
-	struct rref	*rdst, *rsrc;
+	const struct rolemap	*src = r->result;
 
 	if (f->rolemap == NULL) {
 		f->rolemap = r->result;
 		return 1;
 	}
-
-	TAILQ_FOREACH(rsrc, &r->result->rq, entries) {
-		TAILQ_FOREACH(rdst, &f->rolemap->rq, entries)
-			if (rdst->role == rsrc->role)
-				break;
-
-		/* Already specified! */
-
-		if (rdst != NULL)
-			return 1;
-
-		/* Source doesn't exist in destination. */
-
-		rdst = calloc(1, sizeof(struct rref));
-		if (rdst == NULL) {
-			gen_err(cfg, &rsrc->pos);
-			return 0;
-		}
-		TAILQ_INSERT_TAIL(&f->rolemap->rq, rdst, entries);
-		rdst->parent = f->rolemap;
-		rdst->pos = rsrc->pos;
-		rdst->role = rsrc->role;
+	if (r->name != NULL) {
+		src = f->rolemap;
+		f->rolemap = r->result;
 	}
-
-	return 1;
+	return resolve_struct_rolemap_post_cover(cfg, f->rolemap, src);
 }
 
 /*
@@ -613,32 +626,6 @@ resolve_struct_rolemap_noexport(struct config *cfg,
 	return 0;
 }
 
-static int
-resolve_struct_rolemap_post_cover(struct config *cfg,
-	struct rolemap *dst, const struct rolemap *src)
-{
-	const struct rref	*srcr;
-	struct rref		*dstr;
-
-	TAILQ_FOREACH(srcr, &src->rq, entries) {
-		TAILQ_FOREACH(dstr, &dst->rq, entries)
-			if (dstr->role == srcr->role)
-				break;
-		if (dstr != NULL)
-			continue;
-		if ((dstr = calloc(1, sizeof(struct rref))) == NULL) {
-			gen_err(cfg, &srcr->pos);
-			return 0;
-		}
-		TAILQ_INSERT_TAIL(&dst->rq, dstr, entries);
-		dstr->role = srcr->role;
-		dstr->pos = srcr->pos;
-		dstr->parent = dst;
-	}
-
-	return 1;
-}
-
 /*
  * For "all" rolemaps, add the assigned roles to all possible operations
  * except for "noexport".
-- 
2.43.0


From 90359895025e3f111fd188115fc92deb2be753f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 006/108] fix: compare all unique statements when looking for
 duplicates

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index fd7534b..958faaa 100644
--- a/linker.c
+++ b/linker.c
@@ -393,7 +393,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From e35f191bd92fe3aa751ce9eaaec14244bcb4de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 007/108] fix: create valid SQL aliases when there are more
 than 676 of them

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From d1f3c0500b585bb70729cdc6c33a3119daa6390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 008/108] fix: order structures after those they contain

---
 linker.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/linker.c b/linker.c
index 958faaa..2a1bcbd 100644
--- a/linker.c
+++ b/linker.c
@@ -494,6 +494,7 @@ ort_parse_close(struct config *cfg)
 	struct rolemap	 *rm;
 	struct search	 *srch;
 	size_t		  colour = 1, sz = 0, i = 0;
+	int		  raised;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -576,6 +577,26 @@ ort_parse_close(struct config *cfg)
 	}
 	assert(sz > 0);
 
+	/*
+	 * The above doesn't follow a structure once for each path
+	 * leading to it, so make sure that structures are always higher
+	 * than those that contain them.
+	 */
+
+	do {
+		raised = 0;
+		TAILQ_FOREACH(p, &cfg->sq, entries)
+			TAILQ_FOREACH(f, &p->fq, entries) {
+				if (f->type != FTYPE_STRUCT ||
+				    f->ref->target->parent->height >
+				    p->height)
+					continue;
+				f->ref->target->parent->height =
+					p->height + 1;
+				raised = 1;
+			}
+	} while (raised);
+
 	/*
 	 * Copy the list into a temporary array.
 	 * Then sort the list by reverse-height.
-- 
2.43.0


From d7bd2f55bc711475c9af1fc73bbd212cdb365421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 009/108] fix: xliff extraction: don't sort nothing, escape
 file names, free memory

---
 lang-xliff.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..41e172a 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -852,7 +852,9 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	}
 
 	rc = -1;
-	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
+	if (x->usz > 0)
+		qsort(x->u, x->usz, 
+			sizeof(struct xliffunit), xliffunit_sort);
 
 	if (fprintf(f, 
 	    "<xliff version=\"1.2\" "
@@ -984,19 +986,26 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 			goto out;
 	}
 
-	qsort(s, ssz, sizeof(char *), xliff_sort);
+	if (ssz > 0)
+		qsort(s, ssz, sizeof(char *), xliff_sort);
 
 	/* 
 	 * Emit them all, sorted, in XLIFF format.
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	if ((buf = escape(cfg->fnamesz ? cfg->fnames[0] : "")) == NULL)
+		goto out;
+	rc = fprintf(f, "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file source-language=\"TODO\" original=\"%s\" "
 	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+            "\t\t<body>\n", buf);
+	free(buf);
+	if (rc < 0) {
+		rc = 0;
 		goto out;
+	}
 
 	for (i = 0; i < ssz; i++) {
 		rc = 0;
@@ -1021,6 +1030,7 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	rc = fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) != EOF;
 out:
+	free(s);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From 7d41d7ee9c7aab108855dac27c962ab387f7c72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 010/108] fix: don't crash on XLIFF files with misplaced or
 empty elements

---
 lang-xliff.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 41e172a..6c7c121 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -305,7 +305,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -467,7 +467,8 @@ xend(void *dat, const XML_Char *s)
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
+		if (p->curunit == NULL)
+			return;
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -477,12 +478,12 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->target);
+		if (p->curunit != NULL && p->curunit->target != NULL)
+			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
-		unescape(p->curunit->source);
+		if (p->curunit != NULL && p->curunit->source != NULL)
+			unescape(p->curunit->source);
 		p->type = 0;
 	}
 }
@@ -536,6 +537,12 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From 657deeb479441bc1ee090ce8712484dee7f3d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 011/108] fix: ort-xliff exits with failure when it can't read
 or write

---
 xliff.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xliff.c b/xliff.c
index ad30878..6574f25 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,8 +172,14 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (!rc)
+	/* Extraction doesn't distinguish types of failure. */
+
+	if (op == OP_EXTRACT && !rc)
+		rc = -1;
+	if (rc < 0) {
 		warn(NULL);
+		rc = 0;
+	}
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_write_msg_file(stderr, &mq);
-- 
2.43.0


From ce8d90b4966ef5d068e4b75ec7b1d1cc97e2f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 012/108] fix: translate the isnull labels of enumerations

---
 lang-xliff.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 6c7c121..77160b0 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -722,7 +722,7 @@ xliff_join_xliff(struct config *cfg, int copy,
 	struct bitidx	*bi;
 	int		 rc;
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_join_unit
 			    (cfg, &ei->labels, copy, NULL, 
@@ -730,6 +730,14 @@ xliff_join_xliff(struct config *cfg, int copy,
 			if (rc <= 0)
 				return rc;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_join_unit
+		    (cfg, &e->labels_null, copy, 
+		     "isnull", lang, x, &e->pos, mq);
+		if (rc <= 0)
+			return rc;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -833,13 +841,20 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	assert(x != NULL);
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries) {
 			rc = xliff_update_unit
 			    (mq, &ei->labels, NULL, x, &ei->pos);
 			if (rc <= 0)
 				goto out;
 		}
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_update_unit
+		    (mq, &e->labels_null, "isnull", x, &e->pos);
+		if (rc <= 0)
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
@@ -974,11 +989,16 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	/* Extract all unique labels strings. */
 
-	TAILQ_FOREACH(e, &cfg->eq, entries)
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (!xliff_extract_unit(mq, f, &ei->labels, 
 			    NULL, &ei->pos, &s, &ssz))
 				goto out;
+		if (!TAILQ_EMPTY(&e->labels_null) &&
+		    !xliff_extract_unit(mq, f, &e->labels_null,
+		    "isnull", &e->pos, &s, &ssz))
+			goto out;
+	}
 
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries)
-- 
2.43.0


From ec4822b5abbbee3fce3ee7b121edef850af2c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 013/108] fix: only join translations into languages ort(5) can
 express

---
 lang-xliff.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 77160b0..4998e8c 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -21,6 +21,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <expat.h>
 #include <limits.h> /* INT_MAX */
 #include <stdarg.h>
@@ -776,12 +777,31 @@ xliff_join_single(struct config *cfg, int copy,
 	void		*pp;
 	int		 rc;
 	struct pos	 pos;
+	char		*cp;
 
 	if ((rc = xliff_read(mq, xml, fn, p, &x)) <= 0)
 		return rc;
 
 	assert(x->trglang != NULL);
 
+	pos.fname = fn;
+	pos.line = pos.column = 0;
+
+	/* Languages in ort(5) are case-insensitive identifiers. */
+
+	for (cp = x->trglang; *cp != '\0'; cp++) {
+		if (!isalpha((unsigned char)*cp) &&
+		    (cp == x->trglang || !isdigit((unsigned char)*cp)))
+			break;
+		*cp = (char)tolower((unsigned char)*cp);
+	}
+	if (*cp != '\0' || cp == x->trglang) {
+		ort_msg(mq, MSGTYPE_ERROR, 0, &pos, "target-language "
+			"not a valid language: %s", x->trglang);
+		xparse_xliff_free(x);
+		return 0;
+	}
+
 	for (i = 0; i < cfg->langsz; i++)
 		if (strcmp(cfg->langs[i], x->trglang) == 0)
 			break;
@@ -797,8 +817,6 @@ xliff_join_single(struct config *cfg, int copy,
 			return -1;
 		cfg->langsz++;
 	} else {
-		pos.fname = fn;
-		pos.line = pos.column = 0;
 		ort_msg(mq, MSGTYPE_WARN, 0, &pos, 
 			"language \"%s\" already noted", x->trglang);
 	}
-- 
2.43.0


From 94e6bc3110fb8731c706608a251d5c162204e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 014/108] fix: escape attributes, labels and avoid duplicate
 ids in XLIFF output

---
 lang-xliff.c | 72 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 13 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 4998e8c..bb89f29 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -561,6 +561,32 @@ xliffunit_sort(const void *a1, const void *a2)
 	return strcmp(p1->source, p2->source);
 }
 
+/*
+ * Escape any unescaped double quotes in "s", as well as a backslash that
+ * would otherwise escape the closing quote, so that it may be used as a
+ * string literal.
+ * Return NULL on memory failure.
+ */
+static char *
+literal(const char *s)
+{
+	char	*buf, *cp;
+	char	 last = ' ';
+
+	if ((cp = buf = malloc(strlen(s) * 2 + 2)) == NULL)
+		return NULL;
+
+	for ( ; *s != '\0'; s++) {
+		if (*s == '"' && last != '\\')
+			*cp++ = '\\';
+		*cp++ = last = *s;
+	}
+	if (last == '\\')
+		*cp++ = ' ';
+	*cp = '\0';
+	return buf;
+}
+
 /*
  * Return <0 on error, 0 on syntax error, >0 on success.
  */
@@ -648,10 +674,8 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
-	if ((l->label = strdup(targ)) == NULL)
-		return -1;
 	TAILQ_INSERT_TAIL(q, l, entries);
-	return 1;
+	return (l->label = literal(targ)) == NULL ? -1 : 1;
 }
 
 /*
@@ -662,9 +686,10 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	const char *type, struct xliffset *x, const struct pos *pos)
 {
 	const struct label		*l;
-	size_t			 i;
+	size_t			 i, newid;
 	struct xliffunit	*u;
-	char			 nbuf[32];
+	unsigned long long	 id;
+	char			*ep;
 	void			*pp;
 
 	TAILQ_FOREACH(l, q, entries)
@@ -693,16 +718,25 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 			break;
 
 	if (i == x->usz) {
+		/* Use an identifier beyond all existing ones. */
+
+		newid = x->usz + 1;
+		for (i = 0; i < x->usz; i++) {
+			id = strtoull(x->u[i].name, &ep, 10);
+			if (*ep == '\0' && id >= newid && id < SIZE_MAX)
+				newid = id + 1;
+		}
 		pp = reallocarray(x->u, 
 			x->usz + 1, sizeof(struct xliffunit));
 		if (pp == NULL)
 			return -1;
 		x->u = pp;
 		u = &x->u[x->usz++];
-		snprintf(nbuf, sizeof(nbuf), "%zu", x->usz);
 		memset(u, 0, sizeof(struct xliffunit));
-		if ((u->name = strdup(nbuf)) == NULL)
+		if (asprintf(&u->name, "%zu", newid) == -1) {
+			u->name = NULL;
 			return -1;
+		}
 		if ((u->source = strdup(l->label)) == NULL)
 			return -1;
 	}
@@ -843,7 +877,7 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	const struct eitem 	*ei;
 	const struct bitf	*b;
 	const struct bitidx	*bi;
-	char			*sbuf = NULL, *tbuf = NULL;
+	char			*nbuf = NULL, *sbuf = NULL, *tbuf = NULL;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
 	if ((p = XML_ParserCreate(NULL)) == NULL)
@@ -896,15 +930,25 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 		qsort(x->u, x->usz, 
 			sizeof(struct xliffunit), xliffunit_sort);
 
+	if ((nbuf = escape(x->trglang)) == NULL ||
+	    (sbuf = escape(x->srclang)) == NULL ||
+	    (tbuf = escape(x->original)) == NULL)
+		goto out;
 	if (fprintf(f, 
 	    "<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
 	    "\t<file target-language=\"%s\" source-language=\"%s\" "
 	    "original=\"%s\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", x->trglang, x->srclang, x->original) < 0)
+            "\t\t<body>\n", nbuf, sbuf, tbuf) < 0)
 		goto out;
+	free(nbuf);
+	free(sbuf);
+	free(tbuf);
+	nbuf = sbuf = tbuf = NULL;
 
 	for (i = 0; i < x->usz; i++) {
+		if ((nbuf = escape(x->u[i].name)) == NULL)
+			goto out;
 		if ((sbuf = escape(x->u[i].source)) == NULL)
 			goto out;
 		if (x->u[i].target != NULL &&
@@ -918,14 +962,14 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, sbuf) < 0)
+			    nbuf, sbuf, sbuf) < 0)
 				goto out;
 		} else if (tbuf == NULL) {
 			if (fprintf(f, 
 			    "\t\t\t<trans-unit id=\"%s\">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf) < 0)
+			    nbuf, sbuf) < 0)
 				goto out;
 		} else {
 			if (fprintf(f, 
@@ -933,12 +977,13 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
 			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, tbuf) < 0)
+			    nbuf, sbuf, tbuf) < 0)
 				goto out;
 		}
+		free(nbuf);
 		free(sbuf);
 		free(tbuf);
-		sbuf = tbuf = NULL;
+		nbuf = sbuf = tbuf = NULL;
 	}
 
 	if (fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) == EOF)
@@ -946,6 +991,7 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 
 	rc = 1;
 out:
+	free(nbuf);
 	free(sbuf);
 	free(tbuf);
 	xparse_xliff_free(x);
-- 
2.43.0


From 895be347e17e753892596e9f685a4aaee3365742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 015/108] fix: avoid overflow when assigning enumeration values

---
 parser_enum.c | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..787e12d 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -209,7 +209,10 @@ parse_enum_data(struct parse *p, struct enm *e)
 			if (!(ei->flags & EITEM_AUTO))
 				if (ei->value > maxvalue)
 					maxvalue = ei->value;
-		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
+		if (maxvalue < 0)
+			maxvalue = 0;
+		else if (maxvalue < INT64_MAX)
+			maxvalue++;
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (maxvalue == INT64_MAX) {
 				parse_errx(p, "integer overflow "
@@ -236,10 +239,7 @@ void
 parse_enum(struct parse *p)
 {
 	struct enm	*e;
-	struct eitem	*ei;
-	int		 foundauto = 0;
 	char		*cp;
-	int64_t		 maxv = INT64_MIN;
 
 	if (parse_next(p) != TOK_IDENT) {
 		parse_errx(p, "expected enum name");
@@ -271,22 +271,5 @@ parse_enum(struct parse *p)
 		*cp = (char)tolower((unsigned char)*cp);
 
 	parse_enum_data(p, e);
-
-	/* Get the sup(max) bount below at zero. */
-
-	TAILQ_FOREACH(ei, &e->eq, entries)
-		if (!(ei->flags & EITEM_AUTO) && ei->value > maxv) {
-			maxv = ei->value;
-			foundauto = 1;
-		}
-
-	/* Auto-assign values, if not given. */
-
-	if (foundauto) {
-		maxv = maxv < 0 ? 0 : maxv + 1;
-		TAILQ_FOREACH(ei, &e->eq, entries)
-			if (ei->flags & EITEM_AUTO)
-				ei->value = maxv++;
-	}
 }
 
-- 
2.43.0


From 3f98097bd153752e89e5ed7ec78998e18a933918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 016/108] fix: don't use role constraint name after its buffer
 is reused

---
 parser_struct.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..8419b41 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1350,16 +1350,20 @@ parse_struct_roles(struct parse *p, struct strct *s)
 			goto cleanup;
 		} 
 
-		/* Assign all roles to the given operation. */
-
-		if (!rolemap_assign(p, s, 
-		    (const char *const *)ns, nsz, type, name))
-			goto cleanup;
+		/*
+		 * Assign all roles to the given operation.
+		 * The name is in the token buffer, which has been
+		 * overwritten unless it was followed by a semicolon.
+		 */
 
 		if (p->lasttype != TOK_SEMICOLON) {
 			parse_errx(p, "expected semicolon");
 			goto cleanup;
 		}
+
+		if (!rolemap_assign(p, s, 
+		    (const char *const *)ns, nsz, type, name))
+			goto cleanup;
 	}
 
 	if (!PARSE_STOP(p) && p->lasttype == TOK_RBRACE)
-- 
2.43.0


From 4f96d030fb0f135ce8f59b753d21a53840156694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 017/108] fix: strip all carriage returns before a newline in
 literals

---
 parser.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index c6ca3ae..da41ac8 100644
--- a/parser.c
+++ b/parser.c
@@ -498,11 +498,10 @@ again:
 
 			/* Strip out CRLF. */
 
-			if (last == '\r' && c == '\n') {
-				p->bufsz--;
-				last = p->bufsz == 0 ? 
-					' ' : p->buf[p->bufsz];
-			}
+			if (c == '\n')
+				while (p->bufsz > 0 &&
+				       p->buf[p->bufsz - 1] == '\r')
+					p->bufsz--;
 
 			if (!buf_push(p, c))
 				return TOK_ERR;
-- 
2.43.0


From f82c68414b41fab95f57228e8670b2e9e4a04ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 018/108] fix: don't mistake a prior error for a malformed
 decimal

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index da41ac8..c558e5f 100644
--- a/parser.c
+++ b/parser.c
@@ -551,6 +551,7 @@ again:
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
 		if (hasdot) {
+			errno = 0;
 			p->last.decimal = strtod(p->buf, &epp);
 			if (epp == p->buf || ERANGE == errno)
 				return(parse_errx(p, 
-- 
2.43.0


From 8fab0c64d568eda74135ef00b5482c563ddbfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 019/108] fix: reject bit operators on non-bit update and
 delete fields

---
 linker_resolve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index ef6bfd2..ddc4608 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -319,6 +319,20 @@ resolve_up_const(struct config *cfg, struct struct_up_const *r)
 		errs++;
 	}
 
+	/* Bit operators need bits, as in queries. */
+
+	if (r->result->field != NULL &&
+	    (r->result->op == OPTYPE_AND ||
+	     r->result->op == OPTYPE_OR) &&
+	    r->result->field->type != FTYPE_BIT &&
+	    r->result->field->type != FTYPE_BITFIELD &&
+	    r->result->field->type != FTYPE_INT) {
+		gen_errx(cfg, &r->result->pos, "bit operations "
+			"only available on bit, bitfield, "
+			"and integer types");
+		errs++;
+	}
+
 	return errs == 0;
 }
 
-- 
2.43.0


From d372cf76378587ec4e83d07ce5a6f5cec2e2a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 020/108] fix: reject duplicate update and delete names

---
 parser_struct.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index 8419b41..a8f5571 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,8 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *uup;
+	struct updateq	*uq;
 	struct uref	*ur;
 	char		*cp;
 
@@ -929,10 +930,8 @@ parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 	TAILQ_INIT(&up->mrq);
 	TAILQ_INIT(&up->crq);
 
-	if (up->type == UP_MODIFY)
-		TAILQ_INSERT_TAIL(&s->uq, up, entries);
-	else
-		TAILQ_INSERT_TAIL(&s->dq, up, entries);
+	uq = up->type == UP_MODIFY ? &s->uq : &s->dq;
+	TAILQ_INSERT_TAIL(uq, up, entries);
 
 	/* 
 	 * For "update" statements, start with the fields that will be
@@ -1075,6 +1074,16 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			TAILQ_FOREACH(uup, uq, entries) {
+				if (uup == up || uup->name == NULL ||
+				    strcasecmp(uup->name, 
+				     p->last.string))
+					continue;
+				parse_errx(p, "duplicate %s name", 
+					up->type == UP_MODIFY ?
+					"update" : "delete");
+				return;
+			}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From 2d8df56a25baf24f726364f56b5ee67e3b0d5a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 021/108] fix: reserve the remaining keywords of C

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index c558e5f..79f4b6d 100644
--- a/parser.c
+++ b/parser.c
@@ -54,17 +54,23 @@ static	const char *const badidents[] = {
 	"extern",
 	"float",
 	"goto",
+	"inline",
+	"int",
 	"long",
 	"register",
+	"return",
 	"short",
 	"signed",
+	"sizeof",
 	"static",
 	"struct",
+	"switch",
 	"typedef",
 	"union",
 	"unsigned",
 	"void",
 	"volatile",
+	"while",
 	/* Things not allowed in SQLite. */
 	"ABORT",
 	"ACTION",
-- 
2.43.0


From bd9965ac5d55b8d2f924b4b4915c66acc1fed8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 022/108] fix: reserve keywords of newer SQLite

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 79f4b6d..725df1e 100644
--- a/parser.c
+++ b/parser.c
@@ -149,6 +149,7 @@ static	const char *const badidents[] = {
 	"MATCH",
 	"NATURAL",
 	"NOT",
+	"NOTHING",
 	"NOTNULL",
 	"NULL",
 	"OF",
@@ -170,6 +171,7 @@ static	const char *const badidents[] = {
 	"RENAME",
 	"REPLACE",
 	"RESTRICT",
+	"RETURNING",
 	"RIGHT",
 	"ROLLBACK",
 	"ROW",
-- 
2.43.0


From 5a8d9008b5f802b390fb1bef2c5756e815c05ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:09 +0000
Subject: [PATCH 023/108] fix: compare label languages by name, not index, in
 differences

---
 diff.c | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..1f06334 100644
--- a/diff.c
+++ b/diff.c
@@ -82,10 +82,13 @@ ort_check_rolemap_roles(const struct rolemap *from,
 
 /*
  * Make sure that the queue of labels contains the same data.
+ * The language index is particular to each configuration, so languages
+ * must be compared by name.
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +106,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,6 +224,7 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitidx *ifrom, const struct bitidx *iinto)
 {
 	struct diff	*d;
@@ -244,7 +249,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,6 +442,7 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct eitem *ifrom, const struct eitem *iinto)
 {
 	struct diff	*d;
@@ -468,7 +475,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,6 +496,7 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitf *efrom, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
@@ -504,7 +513,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +544,11 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset, 
+	      cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null, 
+	      cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,6 +1293,7 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct enm *efrom, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
@@ -1297,7 +1310,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1340,8 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null, 
+	     cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1377,7 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf(q, from, into, efrom, einto))
 			return 0;
 	}
 
@@ -1612,7 +1627,7 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm(q, from, into, efrom, einto))
 			return 0;
 	}
 
-- 
2.43.0


From 77f79a3f8ada46526eb6582b424f46ce0640d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 024/108] fix: print removed roles, not enumeration items, in
 differences

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..4eb4d8d 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 17b62361a1e541bad194daa19a73c2b02f72d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 025/108] fix: accept -f between old and new configurations

---
 maindiff.c | 13 +++++++++++--
 sqldiff.c  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index bfec866..4117aac 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -37,7 +37,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 2;
+	int		  rc = 2, optsz;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0;
 	struct diffq	 *q = NULL;
@@ -48,7 +48,16 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "d") != -1)
+	/*
+	 * Options must precede "-f", which separates old from new
+	 * configurations and so isn't an option itself.
+	 */
+
+	for (optsz = 1; optsz < argc; optsz++)
+		if (strcmp(argv[optsz], "-f") == 0)
+			break;
+
+	if (getopt(optsz, argv, "d") != -1)
 		goto usage;
 
 	argc -= optind;
diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..9a97f8f 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -39,7 +39,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 0, c, destruct = 0;
+	int		  rc = 0, c, destruct = 0, optsz;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0, sz;
 	struct diffq	 *q = NULL;
@@ -50,7 +50,16 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "d")) != -1)
+	/*
+	 * Options must precede "-f", which separates old from new
+	 * configurations and so isn't an option itself.
+	 */
+
+	for (optsz = 1; optsz < argc; optsz++)
+		if (strcmp(argv[optsz], "-f") == 0)
+			break;
+
+	while ((c = getopt(optsz, argv, "d")) != -1)
 		switch (c) {
 		case 'd':
 			destruct = 1;
-- 
2.43.0


From 46890e1e111dc14c7c908e14f91864da40a1796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 026/108] fix: don't mistake -f for a file when new is standard
 input

---
 maindiff.c | 2 +-
 sqldiff.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index 4117aac..d99e614 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -82,7 +82,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && argc == 2)
+	if (dconfsz == (size_t)argc && argc == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
diff --git a/sqldiff.c b/sqldiff.c
index 9a97f8f..b230a8d 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -91,7 +91,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && sz == 2)
+	if (dconfsz == sz && sz == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
-- 
2.43.0


From 56be57cdc5a34cfc12b889b847650c0b196de5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 027/108] fix: create manual pages when no structure may be
 inserted

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From 3aaff83f8f01b0c01d067b8ce4eb0c9a8906e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 028/108] fix: order structures independently of their order in
 the input

---
 linker.c | 52 +++++++---------------------------------------------
 1 file changed, 7 insertions(+), 45 deletions(-)

diff --git a/linker.c b/linker.c
index 2a1bcbd..6222fb9 100644
--- a/linker.c
+++ b/linker.c
@@ -81,29 +81,6 @@ gen_errx(struct config *cfg,
 		ort_msg(&cfg->mq, MSGTYPE_ERROR, 0, pos, NULL);
 }
 
-/*
- * Recursively annotate our height from each node.
- * We only do this for FTYPE_STRUCT objects.
- */
-static void
-annotate(struct ref *ref, size_t height, size_t colour)
-{
-	struct field	*f;
-	struct strct	*p;
-
-	p = ref->target->parent;
-
-	if (p->colour == colour)
-		return;
-
-	p->colour = colour;
-	p->height += height;
-
-	TAILQ_FOREACH(f, &p->fq, entries)
-		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
-}
-
 /*
  * Sort by reverse height.
  */
@@ -493,7 +470,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 	int		  raised;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
@@ -557,32 +534,17 @@ ort_parse_close(struct config *cfg)
 		return 0;
 
 	/*
-	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
-	 * This establishes a "height" that we'll use when ordering our
-	 * structures in the header file.
+	 * Order structures such that a structure always has a greater
+	 * "height" than all of those that contain it.
+	 * The height is the longest path from any structure, so it
+	 * doesn't depend on the input order.
+	 * We use this when ordering our structures.
 	 */
 
-	TAILQ_FOREACH(p, &cfg->sq, entries) {
+	TAILQ_FOREACH(p, &cfg->sq, entries)
 		sz++;
-		if (p->colour)
-			continue;
-		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
-	}
 	assert(sz > 0);
 
-	/*
-	 * The above doesn't follow a structure once for each path
-	 * leading to it, so make sure that structures are always higher
-	 * than those that contain them.
-	 */
-
 	do {
 		raised = 0;
 		TAILQ_FOREACH(p, &cfg->sq, entries)
-- 
2.43.0


From ac097165716cee543c4dcd5a8b23c0099547f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 029/108] fix: terminate the last line of comments ending with
 newlines

---
 lang.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..fd4f1f1 100644
--- a/lang.c
+++ b/lang.c
@@ -224,9 +224,12 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			curcol++;
 		}
 
-		/* Newline-terminate. */
+		/* 
+		 * Newline-terminate.  This is also the case if the last
+		 * character was a newline, as that started a new line.
+		 */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From 046b877be23c41df9e425117606f982f4e0395d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 030/108] fix: don't let documentation close a C or JavaScript
 comment

---
 lang.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lang.c b/lang.c
index fd4f1f1..e1dc38f 100644
--- a/lang.c
+++ b/lang.c
@@ -220,6 +220,13 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 
 			if (fputc(*cp, f) == EOF)
 				return 0;
+
+			/* Don't let the text close a block comment. */
+
+			if (*cp == '*' && cp[1] == '/' &&
+			    fputc(' ', f) == EOF)
+				return 0;
+
 			last = *cp;
 			curcol++;
 		}
@@ -265,12 +272,12 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 	/*
 	 * If we're a C comment and are sufficiently small, then print
 	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
+	 * Text that needs escaping is left to the multi-line form.
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strstr(cp, "*/") == NULL &&
+	    strstr(cp, "\\\"") == NULL && strlen(cp) < maxcol) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From 708488e8cf7da781d599300759f0f75105819074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:38 +0000
Subject: [PATCH 031/108] fix: quote string defaults in SQL differences

---
 lang-sql.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lang-sql.c b/lang-sql.c
index d1e04a1..ca9d3a7 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -263,6 +263,27 @@ ort_lang_sql(const struct ort_lang_sql *args,
 	return 1;
 }
 
+/*
+ * Emit an ort(5) string literal as an SQL one.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_string(FILE *f, const char *cp)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *cp != '\0'; cp++) {
+		if (cp[0] == '\\' && cp[1] == '"')
+			cp++;
+		if (*cp == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*cp, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
 /*
  * This is the ALTER TABLE version of the field generators in
  * gen_struct().
@@ -311,7 +332,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
+			rc = gen_string(f, fd->def.string) ? 0 : -1;
 			break;
 		case FTYPE_ENUM:
 			rc = fprintf(f, "%" PRId64, 
-- 
2.43.0


From 191a7945722f5d906730a28c202cc53990c0c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 032/108] fix: refuse to migrate to an added rowid, which
 SQLite can't do

---
 lang-sql.c        | 10 ++++++++++
 man/ort-sqldiff.1 |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/lang-sql.c b/lang-sql.c
index ca9d3a7..2a1d3d4 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -361,6 +361,16 @@ gen_check_fields(struct msgq *mq, const struct diffq *q, int destruct)
 
 	TAILQ_FOREACH(d, q, entries) {
 		switch (d->type) {
+		case DIFF_ADD_FIELD:
+			if (!(d->field->flags & FIELD_ROWID))
+				break;
+
+			/* SQLite can't add a primary key. */
+
+			gen_warnx(mq, &d->field->pos, 
+				"rowid field column was added");
+			errors++;
+			break;
 		case DIFF_DEL_FIELD:
 			if (destruct || d->field->type == FTYPE_STRUCT)
 				break;
diff --git a/man/ort-sqldiff.1 b/man/ort-sqldiff.1
index efc88be..cd9dd8d 100644
--- a/man/ort-sqldiff.1
+++ b/man/ort-sqldiff.1
@@ -94,6 +94,10 @@ dropped structures
 .It
 dropped fields
 .It
+added
+.Cm rowid
+fields to existing structures
+.It
 changed field types
 .It
 changed foreign key references
-- 
2.43.0


From 7a8d02bc0d9e0009dac76cf32df1b8685a1715bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 033/108] fix: drop tables after those that refer to them

---
 lang-sql.c | 63 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index 2a1d3d4..70ff08c 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -555,6 +555,43 @@ gen_diff_unique_del(FILE *f, const struct unique *u)
 	return fputs(";\n", f) != EOF;
 }
 
+/*
+ * Drop a table after having dropped all those referring to it: otherwise,
+ * SQLite refuses if there are any such references.
+ * The "done" array has all tables already dropped.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_diff_strct_del(FILE *f, const struct diffq *q, 
+	const struct strct *p, const struct strct **done, size_t *donesz)
+{
+	const struct diff	*d;
+	const struct field	*fd;
+	size_t			 i;
+
+	for (i = 0; i < *donesz; i++)
+		if (done[i] == p)
+			return 1;
+
+	done[(*donesz)++] = p;
+
+	TAILQ_FOREACH(d, q, entries) {
+		if (d->type != DIFF_DEL_STRCT)
+			continue;
+		TAILQ_FOREACH(fd, &d->strct->fq, entries) {
+			if (fd->type == FTYPE_STRUCT || 
+			    fd->ref == NULL ||
+			    fd->ref->target->parent != p)
+				continue;
+			if (!gen_diff_strct_del
+			    (f, q, d->strct, done, donesz))
+				return 0;
+		}
+	}
+
+	return fprintf(f, "DROP TABLE %s;\n", p->name) >= 0;
+}
+
 /*
  * Generate an SQL diff.
  * This returns zero on failure, non-zero on success.
@@ -568,7 +605,8 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 	const struct diffq *q, int destruct, FILE *f, struct msgq *mq)
 {
 	const struct diff	*d;
-	size_t	 		 errors = 0;
+	const struct strct	**done = NULL;
+	size_t	 		 errors = 0, donesz = 0;
 	int	 		 rc = 0, prol = 0;
 	struct msgq		 tmpq = TAILQ_HEAD_INITIALIZER(tmpq);
 
@@ -682,16 +720,25 @@ ort_lang_diff_sql(const struct ort_lang_sql *args,
 		}
 
 	TAILQ_FOREACH(d, q, entries) 
-		if (d->type == DIFF_DEL_STRCT && destruct) {
-			if (!gen_prologue(f, &prol))
-				goto out;
-			if (fprintf(f,
-			    "DROP TABLE %s;\n", d->strct->name) < 0)
-				goto out;
-		}
+		if (d->type == DIFF_DEL_STRCT && destruct)
+			donesz++;
+	if (donesz > 0) {
+		if ((done = calloc(donesz, sizeof(*done))) == NULL)
+			goto out;
+		donesz = 0;
+		TAILQ_FOREACH(d, q, entries) 
+			if (d->type == DIFF_DEL_STRCT && destruct) {
+				if (!gen_prologue(f, &prol))
+					goto out;
+				if (!gen_diff_strct_del(f, q, 
+				    d->strct, done, &donesz))
+					goto out;
+			}
+	}
 
 	rc = 1;
 out:
+	free(done);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From 73ef9262dbb18a8c32f14df5c1f0e68d3b72d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 034/108] fix: ort-sqldiff exits with failure when it can't
 write

---
 sqldiff.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqldiff.c b/sqldiff.c
index b230a8d..35b8929 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -159,8 +159,10 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq);
+	if (rc < 0) 
 		warn(NULL);
+	rc = rc > 0;
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_write_msg_file(stderr, &dcfg->mq);
-- 
2.43.0


From 208cf4a5787d531eddfb0dbd9f8262397289b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 035/108] fix: audit export of the reached, not the queried,
 structure

---
 audit.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/audit.c b/audit.c
index 15b43ec..4c5af22 100644
--- a/audit.c
+++ b/audit.c
@@ -54,8 +54,18 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 	int			 nexp, c;
 	size_t			 i;
 	const struct field	*fd;
+	const struct rolemap	*rm;
 	char			*newpath;
 
+	/* The structure as a whole might not be exported. */
+
+	TAILQ_FOREACH(rm, &st->rq, entries) 
+		if (rm->type == ROLEMAP_NOEXPORT && rm->f == NULL &&
+		    rolemap_has(rm, r)) {
+			exported = 0;
+			break;
+		}
+
 	TAILQ_FOREACH(a, aq, entries)
 		if (a->type == AUDIT_REACHABLE && a->ar.st == st)
 			break;
@@ -166,10 +176,8 @@ ort_audit(const struct role *r, const struct config *cfg)
 	const struct strct	*st, *sst;
 	const struct search	*sr;
 	const struct update	*up;
-	const struct rolemap	*rm;
 	struct audit		*a;
 	struct auditq		*aq = NULL;
-	int			 exported;
 
 	if ((aq = calloc(1, sizeof(struct auditq))) == NULL)
 		goto err;
@@ -177,15 +185,6 @@ ort_audit(const struct role *r, const struct config *cfg)
 	TAILQ_INIT(aq);
 
 	TAILQ_FOREACH(st, &cfg->sq, entries) {
-		exported = 1;
-		TAILQ_FOREACH(rm, &st->rq, entries) 
-			if (rm->type == ROLEMAP_NOEXPORT &&
-			    rm->f == NULL &&
-			    rolemap_has(rm, r)) {
-				exported = 0;
-				break;
-			}
-
 		if (st->ins != NULL &&
 		    rolemap_has(st->ins->rolemap, r)) {
 			a = calloc(1, sizeof(struct audit));
@@ -224,7 +223,7 @@ ort_audit(const struct role *r, const struct config *cfg)
 				a->sr = sr;
 				sst = sr->dst != NULL ? 
 					sr->dst->strct : st;
-				if (!follow(sst, r, aq, sr, exported, NULL))
+				if (!follow(sst, r, aq, sr, 1, NULL))
 					goto err;
 			}
 	}
-- 
2.43.0


From 98b77ae60b4a4e6eff579934b7d9037a111972df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 036/108] fix: write valid JSON strings for documentation in
 audits

---
 audit-json.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..6e296b9 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -210,9 +210,17 @@ print_doc(const char *cp)
 		case ('\t'):
 			fputs("\\t", stdout);
 			break;
+		case ('"'):
+			fputs("\\\"", stdout);
+			break;
+		case ('\\'):
+			/* Quotes are escaped in the input, nothing else. */
+			if (*cp != '"')
+				fputs("\\\\", stdout);
+			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", (unsigned int)c);
 			else
 				fputc(c, stdout);
 			break;
-- 
2.43.0


From 1fae4a10f5d1ff48fcc51a4ddd70fa5ce1c073c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 037/108] fix: keep SQL comments as they are where nothing
 needs escaping

---
 lang.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index e1dc38f..ae54473 100644
--- a/lang.c
+++ b/lang.c
@@ -223,7 +223,7 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 
 			/* Don't let the text close a block comment. */
 
-			if (*cp == '*' && cp[1] == '/' &&
+			if (in[0] == ' ' && *cp == '*' && cp[1] == '/' &&
 			    fputc(' ', f) == EOF)
 				return 0;
 
-- 
2.43.0


From e0101f963ad14a36da4d0356c82baf3b46b3aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 038/108] fix: count distinct structures instead of failing

COUNT(DISTINCT a, b) isn't valid SQL: only one column may be given. Count
the rows of the distinct query instead.
---
 lang.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lang.c b/lang.c
index ae54473..958790a 100644
--- a/lang.c
+++ b/lang.c
@@ -628,12 +628,14 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from (select distinct
+		 *     --gen_sql_stmt_schema--)
 		 *   select --gen_sql_stmt_schema--
 		 */
 
 		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+			if ((rc = fprintf(f, "COUNT(*)%s",
+			    s->dst ? " FROM (SELECT " : "")) < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -652,14 +654,10 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			    p, 1, p, NULL, &col))
 				return 0;
 			needquot = 1;
-		} else
-			if (fputc('*', f) == EOF)
-				return 0;
+		}
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
-			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
 
@@ -670,6 +668,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		 */
 
 		hastrail = 
+			(s->type == STYPE_COUNT && s->dst != NULL) ||
 			(s->aggr != NULL && s->group != NULL) ||
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
@@ -808,6 +807,9 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (s->type == STYPE_COUNT && s->dst != NULL &&
+		    fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From 5676913173610aaad69dc6cddf3215faffe2f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 039/108] fix: respect offsets of searches and of unlimited
 queries

The offset of a search was ignored, and an OFFSET without a LIMIT isn't
valid SQL.
---
 lang.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lang.c b/lang.c
index 958790a..ea5dc1c 100644
--- a/lang.c
+++ b/lang.c
@@ -673,7 +673,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			s->offset > 0;
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -801,10 +801,17 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
-		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+		/*
+		 * An OFFSET needs a LIMIT: if there isn't any, use a
+		 * negative value, which means "unlimited".
+		 */
+
+		if (STYPE_SEARCH != s->type && s->limit > 0) {
+			if (fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+				return 0;
+		} else if (s->offset > 0 && fputs(" LIMIT -1", f) == EOF)
 			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
+		if (s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
 		if (s->type == STYPE_COUNT && s->dst != NULL &&
-- 
2.43.0


From 4958a37dab9d084fe709f2d9aea0a16d5cf6b404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 040/108] fix: produce one row per group when rows of a group
 are equal

If several rows of a group have the minimum or maximum value, all of them
were in the results instead of just one.
---
 lang.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index ea5dc1c..e4682a8 100644
--- a/lang.c
+++ b/lang.c
@@ -700,7 +700,9 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			if (fprintf(f, 
 			    "%s%cLEFT OUTER JOIN %s as _custom "
 			    "ON %s.%s = _custom.%s "
-			    "AND %s.%s %s _custom.%s %c",
+			    "AND (%s.%s %s _custom.%s "
+			    "OR (%s.%s = _custom.%s "
+			    "AND %s._rowid_ < _custom._rowid_)) %c",
 			    spacer, delim,
 			    s->group->field->parent->name, 
 			    s->group->alias == NULL ?
@@ -714,6 +716,14 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			    s->aggr->field->name, 
 			    AGGR_MAXROW == s->aggr->op ?  "<" : ">",
 			    s->aggr->field->name,
+			    s->group->alias == NULL ?
+			    s->group->field->parent->name : 
+			    s->group->alias->alias, 
+			    s->aggr->field->name, 
+			    s->aggr->field->name,
+			    s->group->alias == NULL ?
+			    s->group->field->parent->name : 
+			    s->group->alias->alias, 
 			    delim) < 0)
 				return 0;
 			nc = 1;
-- 
2.43.0


From 056f73ddaedc47cfcd1770bbe646578a917e4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 041/108] fix: define the C types of foreign keys to foreign
 keys

The type of a foreign key to a field that is itself a foreign key was that
of the latter, which isn't defined.
---
 lang-c-header.c  | 19 +++++++++----------
 lang-c-manpage.c |  4 ++--
 lang-c.c         | 36 +++++++++++++++++++++++++++++++++++-
 lang-c.h         |  1 +
 4 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index a5af397..72ad9a0 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -94,7 +94,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "\t%s_%s\t %s;\n",
 			rfd->parent->name, rfd->name, fd->name);
 		break;
@@ -227,14 +227,13 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 				return 0;
 
 			/*
-			 * If we're a reference (fd->ref != NULL), then
-			 * don't print the type's setters and getters,
-			 * as they're defined on the referenced type and
-			 * not the reference.
+			 * If we're a reference, then don't print the
+			 * type's constructor, as it's defined on the
+			 * referenced type and not the reference.
 			 */
 
-			rfd = fd->ref != NULL ? fd->ref->target : fd;
-			if (fd->ref == NULL &&
+			rfd = get_type_field(fd);
+			if (rfd == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) "
 			     "(%s_%s){ .val = (_src) }\n",
@@ -283,7 +282,7 @@ gen_type_funcs(FILE *f, const struct ort_lang_c *args,
 
 			/* Like above, don't expand references. */
 
-			if (fd->ref == NULL &&
+			if (get_type_field(fd) == fd &&
 			    fprintf(f,
 			    "#define ORT_%s_%s(_src) (_src)\n",
 			    s->name, fd->name) < 0)
@@ -342,7 +341,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_type_field(fd) == fd &&
 				    fprintf(f,
 				    "typedef struct %s_%s "
 				     "{ %s val; } %s_%s;\n",
@@ -366,7 +365,7 @@ gen_types(FILE *f, const struct ort_lang_c *args,
 					type = "time_t";
 				else
 					type = "int64_t";
-				if (fd->ref == NULL &&
+				if (get_type_field(fd) == fd &&
 				    fprintf(f,
 				    "typedef %s %s_%s;\n",
 				    type, s->name, fd->name) < 0)
diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 24bc9bf..13a3f9a 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -50,7 +50,7 @@ gen_field_type(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "%s_%s", rfd->parent->name, rfd->name);
 		break;
 	default:
@@ -316,7 +316,7 @@ gen_field(FILE *f, const struct field *fd)
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		c = fprintf(f, "%s_%s %s\n", 
 			rfd->parent->name, rfd->name, fd->name);
 		break;
diff --git a/lang-c.c b/lang-c.c
index 8f3fb64..cdb2276 100644
--- a/lang-c.c
+++ b/lang-c.c
@@ -110,6 +110,40 @@ get_ftype_str(enum ftype op)
 	return ftypes[op];
 }
 
+/*
+ * Get the field for which "fd" has its typedef.
+ * A foreign key uses the type of the field it refers to, which may
+ * itself be a foreign key, and so on.
+ * If these end up being circular, the first (by name) in the circle
+ * provides the type.
+ * Never returns NULL.
+ */
+const struct field *
+get_type_field(const struct field *fd)
+{
+	const struct field	*slow = fd, *first;
+	int			 c;
+
+	while (fd->ref != NULL) {
+		if ((fd = fd->ref->target)->ref == NULL)
+			break;
+		fd = fd->ref->target;
+		if ((slow = slow->ref->target) != fd)
+			continue;
+		first = fd;
+		for (fd = fd->ref->target; fd != slow;
+		     fd = fd->ref->target) {
+			c = strcmp(fd->parent->name, first->parent->name);
+			if (c < 0 ||
+			    (c == 0 && strcmp(fd->name, first->name) < 0))
+				first = fd;
+		}
+		return first;
+	}
+
+	return fd;
+}
+
 /*
  * Generate the db_open function header.
  * If "decl" is non-zero, this is the declaration; otherwise, the
@@ -305,7 +339,7 @@ print_var(FILE *f, size_t pos, size_t col,
 	case FTYPE_DATE:
 	case FTYPE_EPOCH:
 	case FTYPE_INT:
-		rfd = fd->ref != NULL ? fd->ref->target : fd;
+		rfd = get_type_field(fd);
 		rc = fprintf(f, "%s_%s %sv%zu", 
 			rfd->parent->name, rfd->name,
 			(flags & FIELD_NULL) ?  "*" : "", pos);
diff --git a/lang-c.h b/lang-c.h
index 8bf839b..eb65c9b 100644
--- a/lang-c.h
+++ b/lang-c.h
@@ -64,5 +64,6 @@ const char	*get_optype_str(enum optype);
 const char	*get_modtype_str(enum modtype);
 const char	*get_stype_str(enum stype);
 const char	*get_ftype_str(enum ftype);
+const struct field *get_type_field(const struct field *);
 
 #endif /* !LANG_C_H */
-- 
2.43.0


From f179e78d8da388d3c03f03e7ec0719dc1a49be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 042/108] fix: bind the right parameters when iterating by
 hashed password

Terms on hashed passwords aren't bound: the parameter index was incremented
and the position wasn't, instead of the other way around.
---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 32284f4..1527f7d 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -527,8 +527,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From 78908772ba1b865626fcd5cf7ce2a62d7077cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 043/108] fix: look up nullable references whose keys aren't
 integers

The keys were always bound as integers, so the generated code wouldn't link
for any other type.
---
 lang-c-source.c | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 1527f7d..f91e882 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1665,6 +1665,39 @@ gen_unfill_r(FILE *f, const struct strct *p)
 	return fputs("}\n\n", f) != EOF;
 }
 
+/*
+ * Bind the foreign key "fd" of the gen_reffind() structure "p".
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_reffind_bind(FILE *f, const struct field *fd)
+{
+	int	 c;
+
+	switch (fd->type) {
+	case FTYPE_BIT:
+	case FTYPE_BITFIELD:
+	case FTYPE_DATE:
+	case FTYPE_EPOCH:
+	case FTYPE_INT:
+		c = fprintf(f, "\t\tparm.iparm = ORT_GET_%s_%s(p);\n",
+			fd->parent->name, fd->name);
+		break;
+	case FTYPE_BLOB:
+		c = fprintf(f, "\t\tparm.sz = p->%s_sz;\n"
+			"\t\tparm.bparm = p->%s;\n",
+			fd->name, fd->name);
+		break;
+	default:
+		c = fprintf(f, "\t\tparm.%s = p->%s;\n",
+			bindvars[fd->type], fd->name);
+		break;
+	}
+
+	return c >= 0 && fprintf(f, "\t\tparm.type = %s;\n",
+		bindtypes[fd->type]) >= 0;
+}
+
 /*
  * If a structure has possible null foreign keys, we need to fill in the
  * null keys after the lookup has taken place IFF they aren't null.
@@ -1701,7 +1734,9 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 
 	if (fd != NULL && fputs
 	    ("\tconst struct sqlbox_parmset *res;\n"
-	     "\tstruct sqlbox_parm parm;\n", f) == EOF)
+	     "\tstruct sqlbox_parm parm;\n"
+	     "\n"
+	     "\tmemset(&parm, 0, sizeof(parm));\n", f) == EOF)
 		return 0;
 
 	if (fputc('\n', f) == EOF)
@@ -1711,9 +1746,10 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 		if (fd->type != FTYPE_STRUCT)
 			continue;
 		if ((fd->ref->source->flags & FIELD_NULL))
-			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
+			if (fprintf(f, "\tif (p->has_%s) {\n",
+			    fd->ref->source->name) < 0 ||
+			    !gen_reffind_bind(f, fd->ref->source) ||
+			    fprintf(f,
 			    "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
@@ -1724,9 +1760,6 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
-- 
2.43.0


From 712bfea2fb3f9431052369691bcc09068f3e9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:22 +0000
Subject: [PATCH 044/108] fix: don't use freed results when searching by two
 hashed passwords

---
 lang-c-source.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index f91e882..76bd35c 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1391,11 +1391,12 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fputs("\t\tif (p != NULL &&\n"
+		    "\t\t    ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From 5726b9c965f89d634431296012c614c671ca2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:44 +0000
Subject: [PATCH 045/108] fix: clear the bound parameter before each nullable
 reference lookup

---
 lang-c-source.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 76bd35c..10e6a05 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1675,6 +1675,9 @@ gen_reffind_bind(FILE *f, const struct field *fd)
 {
 	int	 c;
 
+	if (fputs("\t\tmemset(&parm, 0, sizeof(parm));\n", f) == EOF)
+		return 0;
+
 	switch (fd->type) {
 	case FTYPE_BIT:
 	case FTYPE_BITFIELD:
@@ -1735,9 +1738,7 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 
 	if (fd != NULL && fputs
 	    ("\tconst struct sqlbox_parmset *res;\n"
-	     "\tstruct sqlbox_parm parm;\n"
-	     "\n"
-	     "\tmemset(&parm, 0, sizeof(parm));\n", f) == EOF)
+	     "\tstruct sqlbox_parm parm;\n", f) == EOF)
 		return 0;
 
 	if (fputc('\n', f) == EOF)
-- 
2.43.0


From 8a6c4d93ee468c1cdcd26a362c46a37765f83770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:21 +0000
Subject: [PATCH 046/108] fix: let all roles enter ROLE_none in the C output

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 10e6a05..7759e78 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1143,6 +1143,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From 754e638d4bce2f772d35959c40b1fd4b1663d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 047/108] fix: let the default role look up nullable references

Queries by the default role terminated when their results had any.
---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 7759e78..f8bed9d 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -821,6 +821,10 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 			if (asprintf(&buf, "STMT_%s_BY_UNIQUE_%s",
 			    p->name, fd->name) < 0)
 				return -1;
+			if (fprintf(f, "\tif (!sqlbox_role_hier_stmt"
+			    "(hier, ROLE_default, %s))\n"
+			    "\t\tgoto err;\n", buf) < 0)
+				return -1;
 			if (!gen_role_stmt_all(f, cfg, buf))
 				return -1;
 			shown++;
-- 
2.43.0


From 11a45079f3e763062b6a1fc9711d5432906a5779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 048/108] fix: don't repeat case labels when exports are denied
 to nested roles

---
 lang-c-source.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index f8bed9d..9338b43 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -254,6 +254,24 @@ gen_role(FILE *f, const struct role *r)
 	return 1;
 }
 
+/*
+ * See if any ancestor of role "r" is also in the map, in which case "r"
+ * has already been accounted for by its ancestor in gen_role().
+ * Return zero if there are none, non-zero if there are some.
+ */
+static int
+rolemap_has_ancestor(const struct rolemap *map, const struct role *r)
+{
+	const struct rref	*rs;
+
+	for (r = r->parent; r != NULL; r = r->parent)
+		TAILQ_FOREACH(rs, &map->rq, entries)
+			if (rs->role == r)
+				return 1;
+
+	return 0;
+}
+
 /*
  * Fill an individual field from the database in gen_fill().
  * Return zero on failure, non-zero on success.
@@ -2191,7 +2209,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!rolemap_has_ancestor(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From a6a0c850b7625b6b0f23c94eb528fe23354aa3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 049/108] fix: don't read beyond the given tokens when
 importing JSON

An object ending with a key that has no value, which jsmn allows, made the
parser read after the last token.
---
 lang-c-source.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 9338b43..2816c57 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2354,6 +2354,12 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n", f) == EOF)
 		return 0;
 
+	/* We need both a key and a value. */
+
+	if (fputs("\t\tif (j + 2 >= toksz)\n"
+	    "\t\t\treturn 0;\n", f) == EOF)
+		return 0;
+
 	TAILQ_FOREACH(fd, &p->fq, entries) {
 		if (fd->flags & FIELD_NOEXPORT)
 			continue;
@@ -2498,7 +2504,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_STRUCT:
 			if (fprintf(f, "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
-			    "\t\t\t\t &t[j+1], toksz - j);\n"
+			    "\t\t\t\t &t[j+1], toksz - (j+1));\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
@@ -2595,7 +2601,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\t\treturn -1;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
-	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j);\n"
+	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - (j+1));\n"
 	    "\t\tif (rc <= 0)\n"
 	    "\t\t\treturn rc;\n"
 	    "\t\tj += rc;\n"
-- 
2.43.0


From 9e4279c3c4465a497f1620dd1c8a3d36a33382d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 050/108] fix: don't leak memory when importing JSON with
 repeated keys

---
 lang-c-source.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 2816c57..9db18c2 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2468,7 +2468,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-			if (fprintf(f, "\t\t\ttmpbuf = strndup\n"
+			if (fprintf(f, "\t\t\tfree(p->%s);\n"
+			    "\t\t\tp->%s = NULL;\n"
+			    "\t\t\ttmpbuf = strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (tmpbuf == NULL)\n"
@@ -2486,19 +2488,21 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\treturn -1;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
+			    fd->name, fd->name,
 			    fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
-			if (fprintf(f, "\t\t\tp->%s = strndup\n"
+			if (fprintf(f, "\t\t\tfree(p->%s);\n"
+			    "\t\t\tp->%s = strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (p->%s == NULL)\n"
 			    "\t\t\t\treturn -1;\n"
 			    "\t\t\tj++;\n",
-			    fd->name, fd->name) < 0)
+			    fd->name, fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-- 
2.43.0


From ab332c25a5ef01d03aad2490993625ba6b2c8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 051/108] fix: malformed base64 in imported JSON isn't an
 allocation failure

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 9db18c2..48b46c7 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2485,7 +2485,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\t(t[j+1].end - t[j+1].start) + 1);\n"
 			    "\t\t\tfree(tmpbuf);\n"
 			    "\t\t\tif (rc < 0)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
 			    fd->name, fd->name,
-- 
2.43.0


From 62f8d6bc3263cc47c4a903f77ee64d9971fbbaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 052/108] fix: import null structures as written by the JSON
 exporter

---
 lang-c-source.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 48b46c7..b698df0 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2370,7 +2370,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 
 		/* Check correct kind of token. */
 
-		if ((fd->flags & FIELD_NULL) && fprintf
+		if (((fd->flags & FIELD_NULL) ||
+		     (fd->type == FTYPE_STRUCT &&
+		      (fd->ref->source->flags & FIELD_NULL))) && fprintf
 		    (f, "\t\t\tif (t[j+1].type == "
 		     "JSMN_PRIMITIVE &&\n"
 		     "\t\t\t    buf[t[j+1].start] == \'n\') {\n"
@@ -2559,7 +2561,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			if (fd->ref->source->flags & FIELD_NULL) {
 				if (fprintf(f, "\tif (p->has_%s)\n"
 			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->ref->source->name,
+				    fd->name,
 				    fd->ref->target->parent->name,
 				    fd->name) < 0)
 					return 0;
-- 
2.43.0


From 1a44f17e442416ee1767f9339b74d5a53574e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 053/108] fix: don't leak structures overridden by null when
 importing JSON

---
 lang-c-source.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index b698df0..74f58f0 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2558,15 +2558,6 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-			if (fd->ref->source->flags & FIELD_NULL) {
-				if (fprintf(f, "\tif (p->has_%s)\n"
-			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->name,
-				    fd->ref->target->parent->name,
-				    fd->name) < 0)
-					return 0;
-				break;
-			}
 			if (fprintf(f, "\tjsmn_%s_clear(&p->%s);\n",
 			    fd->ref->target->parent->name,
 			    fd->name) < 0)
-- 
2.43.0


From 1aa1cdc4d2671f1a0ea862363dbd8c1959d9b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 054/108] fix: reject malformed and out-of-range numbers when
 importing JSON

---
 jsmn.c          | 21 +++++++++------------
 lang-c-source.c |  1 +
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index cb0b249..5b8c9aa 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -318,34 +318,31 @@ static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
 	char 	 tmp[128];
-	int	 rc;
+	char	*ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%lf", ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	*ret = strtod(tmp, &ep);
+	return ep != tmp && *ep == '\0';
 }
 
 static int
 jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 {
 	char 	 tmp[32];
-	int	 rc;
+	char	*ep;
 
-	if (sz > sizeof(tmp) - 1)
+	if (sz == 0 || sz > sizeof(tmp) - 1)
 		return 0;
 
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%" SCNd64, ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	errno = 0;
+	*ret = strtoll(tmp, &ep, 10);
+	return ep != tmp && *ep == '\0' && errno != ERANGE;
 }
diff --git a/lang-c-source.c b/lang-c-source.c
index 74f58f0..d988c0c 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2964,6 +2964,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	if (args->flags & ORT_LANG_C_JSON_JSMN)
 		if (fputs(
 		    "#include <ctype.h>\n"
+		    "#include <errno.h>\n"
 		    "#include <inttypes.h>\n", f) == EOF)
 			return 0;
 
-- 
2.43.0


From 869c341a71d1467f1627fdae6a995a297b18d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 055/108] fix: resolve escape sequences in strings when
 importing JSON

---
 jsmn.c          | 92 +++++++++++++++++++++++++++++++++++++++++++++++++
 lang-c-source.c |  4 +--
 2 files changed, 94 insertions(+), 2 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index 5b8c9aa..38a9767 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -346,3 +346,95 @@ jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 	*ret = strtoll(tmp, &ep, 10);
 	return ep != tmp && *ep == '\0' && errno != ERANGE;
 }
+
+/*
+ * Decode the four hexadecimal digits of a JSON escape sequence, having
+ * been verified as such by the parser.
+ */
+static unsigned int
+jsmn_hex4(const char *buf)
+{
+	char	 tmp[5];
+
+	memcpy(tmp, buf, 4);
+	tmp[4] = '\0';
+	return strtoul(tmp, NULL, 16);
+}
+
+/*
+ * Like strndup(), but resolving the escape sequences of a JSON string.
+ * Surrogates that aren't paired become U+FFFD.
+ */
+static char *
+jsmn_strndup(const char *buf, size_t sz)
+{
+	char		*ret, *cp;
+	size_t		 i;
+	unsigned int	 c, lo;
+
+	/* The result is never longer than its escaped form. */
+
+	if ((ret = cp = malloc(sz + 1)) == NULL)
+		return NULL;
+
+	for (i = 0; i < sz; i++) {
+		if (buf[i] != '\\' || i + 1 == sz) {
+			*cp++ = buf[i];
+			continue;
+		}
+		switch (buf[++i]) {
+		case 'b':
+			*cp++ = '\b';
+			continue;
+		case 'f':
+			*cp++ = '\f';
+			continue;
+		case 'n':
+			*cp++ = '\n';
+			continue;
+		case 'r':
+			*cp++ = '\r';
+			continue;
+		case 't':
+			*cp++ = '\t';
+			continue;
+		case 'u':
+			break;
+		default:
+			*cp++ = buf[i];
+			continue;
+		}
+		if (sz - i < 5)
+			break;
+		c = jsmn_hex4(buf + i + 1);
+		i += 4;
+		lo = 0;
+		if (c >= 0xd800 && c <= 0xdbff && sz - i > 6 &&
+		    buf[i + 1] == '\\' && buf[i + 2] == 'u')
+			lo = jsmn_hex4(buf + i + 3);
+		if (lo >= 0xdc00 && lo <= 0xdfff) {
+			c = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00);
+			i += 6;
+		} else if (c >= 0xd800 && c <= 0xdfff)
+			c = 0xfffd;
+
+		if (c < 0x80) {
+			*cp++ = c;
+		} else if (c < 0x800) {
+			*cp++ = 0xc0 | (c >> 6);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else if (c < 0x10000) {
+			*cp++ = 0xe0 | (c >> 12);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else {
+			*cp++ = 0xf0 | (c >> 18);
+			*cp++ = 0x80 | ((c >> 12) & 0x3f);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		}
+	}
+
+	*cp = '\0';
+	return ret;
+}
diff --git a/lang-c-source.c b/lang-c-source.c
index d988c0c..fbb3098 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2472,7 +2472,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_BLOB:
 			if (fprintf(f, "\t\t\tfree(p->%s);\n"
 			    "\t\t\tp->%s = NULL;\n"
-			    "\t\t\ttmpbuf = strndup\n"
+			    "\t\t\ttmpbuf = jsmn_strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (tmpbuf == NULL)\n"
@@ -2498,7 +2498,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
 			if (fprintf(f, "\t\t\tfree(p->%s);\n"
-			    "\t\t\tp->%s = strndup\n"
+			    "\t\t\tp->%s = jsmn_strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (p->%s == NULL)\n"
-- 
2.43.0


From d2d284a451b4c3a08db53fbc811a1d398db9149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 056/108] fix: define all declared validation functions and
 limits on blobs in the C output

---
 lang-c-header.c |  5 ++++-
 lang-c-source.c | 21 ++++++++-------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/lang-c-header.c b/lang-c-header.c
index 72ad9a0..b12c510 100644
--- a/lang-c-header.c
+++ b/lang-c-header.c
@@ -864,7 +864,8 @@ gen_json_out(FILE *f, const struct config *cfg, const struct strct *p)
 }
 
 /*
- * Generate the validation function for all fields in the structure.
+ * Generate the validation function for all fields in the structure
+ * except for nested structures, which aren't validated.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -873,6 +874,8 @@ gen_valids(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct field	*fd;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
+		if (fd->type == FTYPE_STRUCT)
+			continue;
 		if (fputc('\n', f) == EOF)
 			return 0;
 		if (!gen_commentv(f, 0, COMMENT_C,
diff --git a/lang-c-source.c b/lang-c-source.c
index fbb3098..a7f8971 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2108,9 +2108,8 @@ gen_valids_field(FILE *f,
 
 /*
  * Generate the validation function for the given field.
- * Exceptions: struct fields don't have validators, blob fields always
- * validate, and non-enumerations without limits use the native kcgi(3)
- * validator function.
+ * Exceptions: struct fields don't have validators and blob fields are
+ * only validated for their limits, if any.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2121,18 +2120,14 @@ gen_valids(FILE *f, const struct strct *p)
 	const struct eitem	*ei;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_STRUCT ||
-		    fd->type == FTYPE_BLOB)
-			continue;
-		if (fd->type != FTYPE_ENUM &&
-		    TAILQ_EMPTY(&fd->fvq))
+		if (fd->type == FTYPE_STRUCT)
 			continue;
 
-		assert(validtypes[fd->type] != NULL);
-
 		if (!gen_func_valid(f, fd, 0))
 			return 0;
-		if (fprintf(f, "{\n"
+		if (fputs("{\n", f) == EOF)
+			return 0;
+		if (validtypes[fd->type] != NULL && fprintf(f,
 		    "\tif (!%s(p))\n"
 		    "\t\treturn 0;\n", validtypes[fd->type]) < 0)
 			return 0;
@@ -2828,12 +2823,12 @@ gen_valid(FILE *f, const struct strct *p)
 
 	/*
 	 * Don't generate an entry for structs.
-	 * Blobs always succeed (NULL validator).
+	 * Blobs without limits always succeed (NULL validator).
 	 * Non-enums without limits use the default function.
 	 */
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
-		if (fd->type == FTYPE_BLOB) {
+		if (fd->type == FTYPE_BLOB && TAILQ_EMPTY(&fd->fvq)) {
 			if (fprintf(f, "\t{ NULL, \"%s-%s\" },\n",
 			    p->name, fd->name) < 0)
 				return 0;
-- 
2.43.0


From c0abcdf5922bb5e1b18fe1323c27fbc44ee7ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 057/108] fix: validate limits on e-mails and blobs in the
 Node.js output

---
 lang-nodejs.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 46f7641..3defb32 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1607,9 +1607,19 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (TAILQ_EMPTY(&fd->fvq))
+			return fputs("\t\t\treturn Buffer.from(v);\n",
+				f) != EOF;
+		if (fputs("\t\t\tconst nv: Buffer = "
+		    "Buffer.from(v);\n", f) == EOF)
 			return 0;
-		return 1;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f,
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n",
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		return fputs("\t\t\treturn nv;\n", f) != EOF;
 	case FTYPE_TEXT:
 	case FTYPE_PASSWORD:
 		if (fputs
@@ -1631,10 +1641,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof(em) !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
 			return 0;
-		return 1;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f,
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n",
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		return fputs("\t\t\treturn em;\n", f) != EOF;
 	case FTYPE_REAL:
 		if (fputs
 		    ("\t\t\tlet nv: number;\n"
-- 
2.43.0


From afda9abbd603fef4939ba07df9d66ade57366543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 058/108] fix: limits on text are in bytes in the Node.js
 output

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 3defb32..4a165bd 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1628,7 +1628,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
-- 
2.43.0


From 31120a8ef4360fc1d2c1a506535087d1cd3c7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 059/108] fix: bits are from 0 to 63 when validating in the
 Node.js output

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 4a165bd..56389c1 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1726,7 +1726,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			       return 0;
 		} else {
 		       if (fputs
-			   ("\t\t\tif (nv < BigInt(0) || nv > BigInt(64))\n"
+			   ("\t\t\tif (nv < BigInt(0) || nv > BigInt(63))\n"
 			    "\t\t\t\treturn null;\n", f) == EOF)
 			       return 0;
 		}
-- 
2.43.0


From 55335009e7752b69ea8e2ec40d9afed60c0947e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 060/108] fix: name the type of the configuration argument in
 the Node.js output

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 56389c1..c097b2c 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2299,7 +2299,7 @@ ort_lang_nodejs(const struct ort_lang_nodejs *args,
 		    fputs("export ", f) == EOF)
 			return 0;
 		if (fputs
-		    ("function ort(dbname: string, args?: optargs): ortdb\n"
+		    ("function ort(dbname: string, args?: ortargs): ortdb\n"
 		     "{\n"
 		     "\treturn new ortdb(dbname, args);\n"
 		     "}\n", f) == EOF)
-- 
2.43.0


From 54244e6b17f99879ce76bea49704cb9545e8f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 061/108] fix: request the transaction types in the Node.js
 output

---
 lang-nodejs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index c097b2c..396ac38 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2170,7 +2170,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_immediate(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION IMMEDIATE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN IMMEDIATE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2185,7 +2185,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_deferred(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION DEFERRED\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN DEFERRED TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
@@ -2198,7 +2198,7 @@ gen_ortctx(const struct ort_lang_nodejs *args,
 		return 0;
 	if (fputs("\tdb_trans_open_exclusive(id: number): void\n"
 	    "\t{\n"
-	    "\t\tthis.#o.db.exec(\'BEGIN TRANSACTION EXCLUSIVE\');\n"
+	    "\t\tthis.#o.db.exec(\'BEGIN EXCLUSIVE TRANSACTION\');\n"
 	    "\t}\n\n", f) == EOF)
 		return 0;
 
-- 
2.43.0


From 970aafd55498c147c9bb967c009bd06c17532ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 062/108] fix: deny operations without roles in the Node.js
 output if there are any

---
 lang-nodejs.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 396ac38..28b2267 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -171,23 +171,31 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 
-	if (rm == NULL)
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
+	/* With roles, nobody may use operations without any. */
+
+	if (rm == NULL)
+		return fputs("\t\tswitch (this.#role) {\n"
+			"\t\tdefault:\n"
+			"\t\t\tprocess.abort();\n"
+			"\t\t}\n", f) != EOF ? 1 : -1;
+
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
+		return -1;
 	TAILQ_FOREACH(rr, &rm->rq, entries)
 		if (!gen_role(f, rr->role, 2))
-			return 0;
+			return -1;
 
 	return fputs("\t\t\tbreak;\n"
 	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) != EOF ? 1 : -1;
 }
 
 /*
@@ -386,7 +394,7 @@ gen_fill(FILE *f, const struct strct *p)
  * success.
  */
 static int
-gen_insert(FILE *f, const struct strct *p)
+gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 {
 	const struct field	*fd;
 	size_t	 	 	 pos = 1, col;
@@ -461,7 +469,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +738,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1144,7 +1152,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1288,7 +1296,7 @@ gen_api(FILE *f, const struct config *cfg, const struct strct *p)
 	if (!gen_reffind(f, p))
 		return 0;
 
-	if (p->ins != NULL && !gen_insert(f, p))
+	if (p->ins != NULL && !gen_insert(f, cfg, p))
 		return 0;
 
 	pos = 0;
-- 
2.43.0


From 3572c7555131cb333e857620be6db1f4a352b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 063/108] fix: change roles to ancestors or none in the Node.js
 output

---
 lang-nodejs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 28b2267..acd673e 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2004,9 +2004,9 @@ gen_alias_builder(FILE *f, const struct strct *p)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role into its
+ * ancestors, then all of the transitions from the roles "beneath" the
+ * current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -2018,7 +2018,11 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
+	for (rr = r->parent; rr != NULL; rr = rr->parent)
+		if (strcmp(rr->name, "all") && fprintf
+		    (f, "\t\t\tcase '%s':\n", rr->name) < 0)
+			return 0;
+	if (fputs("\t\t\tcase 'none':\n", f) == EOF)
 		return 0;
 	if (fputs("\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
-- 
2.43.0


From d2539bb162884d0e08bdd001a82ae37a9b03bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 064/108] fix: keep denied operations of the Node.js output
 well-typed

---
 lang-nodejs.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index acd673e..0353397 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -178,13 +178,15 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 	if (TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
-	/* With roles, nobody may use operations without any. */
+	/*
+	 * With roles, nobody may use operations without any.
+	 * Don't let the type checker know that this doesn't return, as
+	 * it would not then be able to make out what follows.
+	 */
 
 	if (rm == NULL)
-		return fputs("\t\tswitch (this.#role) {\n"
-			"\t\tdefault:\n"
-			"\t\t\tprocess.abort();\n"
-			"\t\t}\n", f) != EOF ? 1 : -1;
+		return fputs("\t\t(<() => void>process.abort)();\n", 
+			f) != EOF ? 1 : -1;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
 		return -1;
-- 
2.43.0


From dcd64146e2758430f5a20915346a0bc497c15c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 065/108] fix: escape quotes when concatenating nulls in the
 Node.js output

---
 lang.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index e4682a8..b87ab83 100644
--- a/lang.c
+++ b/lang.c
@@ -1013,8 +1013,10 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 				if ((ur->field->flags & FIELD_NULL)) {
 					if (fprintf(f, 
-					    "COALESCE(%s,'')",
-					    ur->field->name) < 0)
+					    "COALESCE(%s,%s)",
+					    ur->field->name,
+					    lang == LANG_JS ? 
+					    "\\'\\'" : "''") < 0)
 						return 0;
 				} else {
 					if (fprintf(f, "%s", 
-- 
2.43.0


From 782f43d849032c626fb03f47bb9e0b2aeca1aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 066/108] fix: all constraint failures of updates return false
 in the Node.js output

---
 lang-nodejs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 0353397..7485017 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -540,8 +540,8 @@ gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 	     "\t\ttry {\n"
 	     "\t\t\tinfo = stmt.run(parms);\n"
 	     "\t\t} catch (er) {\n"
-	     "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-	     "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+	     "\t\t\tif (String(er.code).startsWith"
+	      "('SQLITE_CONSTRAINT'))\n"
 	     "\t\t\t\treturn BigInt(-1);\n"
 	     "\t\t\tthrow er;\n"
 	     "\t\t}\n"
@@ -835,8 +835,8 @@ gen_update(FILE *f, const struct config *cfg,
 		    "\t\ttry {\n"
 		    "\t\t\tinfo = stmt.run(parms);\n"
 		    "\t\t} catch (er) {\n"
-		    "\t\t\tif (er.code === 'SQLITE_CONSTRAINT_UNIQUE' ||\n"
-		    "\t\t\t    er.code === 'SQLITE_CONSTRAINT_FOREIGNKEY')\n"
+		    "\t\t\tif (String(er.code).startsWith"
+		     "('SQLITE_CONSTRAINT'))\n"
 		    "\t\t\t\treturn false;\n"
 		    "\t\t\tthrow er;\n"
 		    "\t\t}\n"
-- 
2.43.0


From 52ce6ab8d49c31d47182f6e812e1962163cc7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 067/108] fix: emit valid role checks without user-defined
 roles in the Node.js output

---
 lang-nodejs.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 7485017..7c53686 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -166,6 +166,24 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 	return 1;
 }
 
+/*
+ * See if gen_role() would generate anything for the map's roles: if
+ * there are no user-defined roles, there's nothing in "all".
+ * Return zero if it would not, non-zero if it would.
+ */
+static int
+rolemap_has_roles(const struct rolemap *rm)
+{
+	const struct rref	*rr;
+
+	TAILQ_FOREACH(rr, &rm->rq, entries)
+		if (strcmp(rr->role->name, "all") != 0 ||
+		    !TAILQ_EMPTY(&rr->role->subrq))
+			return 1;
+
+	return 0;
+}
+
 /*
  * Recursively generate all roles allowed by this rolemap.
  * Return <0 on failure, >0 if we wrote something, 0 otherwise.
@@ -184,7 +202,7 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 	 * it would not then be able to make out what follows.
 	 */
 
-	if (rm == NULL)
+	if (rm == NULL || !rolemap_has_roles(rm))
 		return fputs("\t\t(<() => void>process.abort)();\n", 
 			f) != EOF ? 1 : -1;
 
@@ -1458,7 +1476,8 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 		}
 
 		tab = "";
-		if (fd->rolemap != NULL) {
+		if (fd->rolemap != NULL && 
+		    rolemap_has_roles(fd->rolemap)) {
 			tab = "\t";
 			if (fputs("\t\tswitch (role) {\n", f) == EOF)
 				return 0;
@@ -1553,6 +1572,7 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 		}
 
 		if (fd->rolemap != NULL &&
+		    rolemap_has_roles(fd->rolemap) &&
 		    fputs("\t\t\tbreak;\n\t\t}\n", f) == EOF)
 			return 0;
 	}
-- 
2.43.0


From 3e819dd924da6e058992f53bfc752f876e88a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 068/108] fix: only look up references where they can be filled
 in the C output

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index a7f8971..746b0d9 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2766,7 +2766,7 @@ gen_functions(FILE *f, const struct config *cfg, const struct strct *p,
 			return 0;
 		if (!gen_unfill_r(f, p))
 			return 0;
-		if (!gen_reffind(f, cfg, p))
+		if (fd != NULL && !gen_reffind(f, cfg, p))
 			return 0;
 		if (!gen_free(f, p))
 			return 0;
-- 
2.43.0


From a7525267114cdc8ba423d31321dd93944d8a553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 069/108] fix: accept -x between configurations and XLIFF files

---
 xliff.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xliff.c b/xliff.c
index 6574f25..51e93a1 100644
--- a/xliff.c
+++ b/xliff.c
@@ -43,7 +43,7 @@ main(int argc, char *argv[])
 #define	OP_EXTRACT		  0
 #define	OP_JOIN			  1
 #define	OP_UPDATE		 (-1)
-	int			  c, op = OP_EXTRACT, rc = 0;
+	int			  c, op = OP_EXTRACT, rc = 0, optsz;
 	size_t			  confsz = 0, i, j, xmlstart = 0, sz;
 	struct msgq		  mq = TAILQ_HEAD_INITIALIZER(mq);
 
@@ -54,7 +54,16 @@ main(int argc, char *argv[])
 
 	memset(&args, 0, sizeof(struct ort_lang_xliff));
 
-	while ((c = getopt(argc, argv, "cju")) != -1)
+	/*
+	 * Options must precede "-x", which separates configurations
+	 * from XLIFF files and so isn't an option itself.
+	 */
+
+	for (optsz = 1; optsz < argc; optsz++)
+		if (strcmp(argv[optsz], "-x") == 0)
+			break;
+
+	while ((c = getopt(optsz, argv, "cju")) != -1)
 		switch (c) {
 		case 'c':
 			args.flags |= ORT_LANG_XLIFF_COPY;
-- 
2.43.0


From 51bad8c96833760300456b323112e45f3068b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 070/108] fix: don't mistake -x for a file when the XLIFF is
 standard input

---
 xliff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xliff.c b/xliff.c
index 51e93a1..a20bb24 100644
--- a/xliff.c
+++ b/xliff.c
@@ -109,7 +109,7 @@ main(int argc, char *argv[])
 
 		/* If we have 2 w/o -x, it's old-new. */
 
-		if (args.insz == 0 && sz == 2)
+		if (confsz == sz && sz == 2)
 			args.insz = confsz = xmlstart = 1;
 
 		if (OP_UPDATE == op && args.insz > 1)
-- 
2.43.0


From fbd1379e4bf8ade1eb2c49074f4a0f1ec70f8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 071/108] fix: write valid JSON strings in the JSON output

---
 lang-json.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 25ceabc..46c2617 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -120,6 +120,9 @@ static const char *const rolemapts[ROLEMAP__MAX] = {
  * Format the string according to the JSON specification.
  * Note about escaping the double-quote: in ort(3), double-quotes are
  * already escaped, so we need not do so again here.
+ * No other character is escaped, so the backslash otherwise stands for
+ * itself.
+ * (File names may have unescaped double-quotes.)
  * Return zero on failure, non-zero on sucess.
  */
 static int
@@ -146,9 +149,17 @@ gen_string(FILE *f, const char *cp)
 		case '\t':
 			rc = fputs("\\t", f) != EOF;
 			break;
+		case '"':
+			rc = fputs("\\\"", f) != EOF;
+			break;
+		case '\\':
+			rc = *(cp + 1) == '"' ||
+				fputs("\\\\", f) != EOF;
+			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", 
+					(unsigned int)*cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From 2771c44b4c35e6632a9928c59629ebb703116fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 072/108] fix: don't swap lines and columns in the JSON output

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 46c2617..edfc80a 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -258,7 +258,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From 04471964e35c45c93f00be59351ff77ddb8180bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 073/108] fix: write default dates as dates when formatting
 JSON configurations

---
 ort-json.ts | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index d7dac10..e4b7812 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -513,6 +513,24 @@ namespace ortJson {
 			return ' roles {' + this.roleSubrqToString(r) + '};';
 		}
 
+		/**
+		 * Dates are epochs in "struct field" but need to be
+		 * ISO-8601 dates in ort(5).
+		 */
+		private dateToString(def: string): string
+		{
+			const d: Date = new Date(Number(def) * 1000);
+			const pad = (v: number, len: number): string => {
+				let str: string = v.toString();
+				while (str.length < len)
+					str = '0' + str;
+				return str;
+			};
+			return pad(d.getFullYear(), 4) + '-' +
+				pad(d.getMonth() + 1, 2) + '-' +
+				pad(d.getDate(), 2);
+		}
+
 		private fieldObjToString(name: string, field: fieldObj): string
 		{
 			let str: string = ' field';
@@ -543,6 +561,9 @@ namespace ortJson {
 				str += ' default "' + 
 					field.def.replace(/"/g, '\\"') +
 					'"';
+			else if (field.def !== null && field.type === 'date')
+				str += ' default ' + 
+					this.dateToString(field.def);
 			else if (field.def !== null)
 				str += ' default ' + field.def;
 
-- 
2.43.0


From d4b609b3fe90a3cd97614e4116a5070da573e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 074/108] fix: escape labels as JavaScript strings

---
 lang-javascript.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lang-javascript.c b/lang-javascript.c
index a43de9a..3f3b663 100644
--- a/lang-javascript.c
+++ b/lang-javascript.c
@@ -72,7 +72,9 @@ static	const char *types[FTYPE__MAX] = {
 
 /*
  * Escape JavaScript string literal.
- * This escapes backslashes and single apostrophes.
+ * This escapes backslashes, single apostrophes, and new-lines.
+ * Note about backslashes: in ort(3), double-quotes are already escaped,
+ * so those are left as-is.
  */
 static int
 gen_label_text(FILE *f, const char *cp)
@@ -85,6 +87,18 @@ gen_label_text(FILE *f, const char *cp)
 			if (fputs("\\\'", f) == EOF)
 				return 0;
 			break;
+		case '\\':
+			if (fputs(*cp == '"' ? "\\" : "\\\\", f) == EOF)
+				return 0;
+			break;
+		case '\n':
+			if (fputs("\\n", f) == EOF)
+				return 0;
+			break;
+		case '\r':
+			if (fputs("\\r", f) == EOF)
+				return 0;
+			break;
 		default:
 			if (fputc(c, f) == EOF)
 				return 0;
-- 
2.43.0


From 96be22eb0bd742eff92dbcfcc74577c7ed5a7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 075/108] fix: don't check zero-valued bits for the last bit

---
 ortPrivate.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 46a1941..5a67c41 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -841,7 +841,8 @@
 				continue;
 
 			if ((v === 0 && lval.isZero()) ||
-			    !Long.ONE.shl(v - 1).and(lval).isZero()) {
+			    (v > 0 &&
+			     !Long.ONE.shl(v - 1).and(lval).isZero())) {
 				inp.setAttribute('checked', 'checked');
 			}
 		}
-- 
2.43.0


From 202b0e4a56e7145f2f2d6bd7198250e942dad90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 076/108] fix: refuse repeated signs in 64-bit integers

---
 ortPrivate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 5a67c41..482dcd8 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -488,7 +488,7 @@
 			const usgn: boolean =
 				(typeof unsigned === 'undefined') ?
 				false : unsigned;
-			const hyph: number = str.indexOf('-');
+			const hyph: number = str.lastIndexOf('-');
 			const radixToPower: Long = Long.TEN_TO_EIGHT;
 			let result: Long = Long.ZERO;
 
-- 
2.43.0


From 9af763739a45bcafcce695b280cd443b6c32ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 077/108] fix: compare signed with unsigned 64-bit integers by
 value

---
 ortPrivate.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ortPrivate.ts b/ortPrivate.ts
index 482dcd8..4b43d70 100644
--- a/ortPrivate.ts
+++ b/ortPrivate.ts
@@ -227,9 +227,9 @@
 			if (!thisNeg && otherNeg)
 				return 1;
 
-			// At this point the sign bits are the same
+			// At this point the signs are the same
 
-			if (!this.unsigned)
+			if (!this.unsigned && !v.unsigned)
 				return this.sub(v).isNegative() ? -1 : 1;
 
 			// Both are positive if at least one is unsigned
-- 
2.43.0


From 9b161b2fc00e6a534ef8c435bd57a3a69054671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 078/108] fix: terminate quotes in the manual of the C API

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 13a3f9a..a9cdbb3 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -459,7 +459,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 				continue;
 			if (sent->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    sent->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
@@ -744,7 +744,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (syn) {
 			if (ur->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    ur->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
@@ -776,7 +776,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (syn) {
 			if (ur->field->type == FTYPE_BLOB)
 				if (fprintf(f,
-				    ".Fa \"size_t %s_sz\n",
+				    ".Fa \"size_t %s_sz\"\n",
 				    ur->field->name) < 0)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
-- 
2.43.0


From 7e6d3acd7398bf13aa31b1d1c89ed1c2c83268d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 079/108] fix: correct prototypes in the manual of the C API

---
 lang-c-manpage.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index a9cdbb3..68ce7eb 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -520,8 +520,8 @@ gen_general(FILE *f, const struct config *cfg, int syn)
 		    ".Ft \"struct ort *\"\n"
 		    ".Fo db_open_logging\n"
 		    ".Fa \"const char *file\"\n"
-		    ".Fa \"(void *log)(const char *, void *)\"\n"
-		    ".Fa \"(void *log_short)(const char *, ...)\"\n"
+		    ".Fa \"void (*log)(const char *, void *)\"\n"
+		    ".Fa \"void (*log_short)(const char *, ...)\"\n"
 		    ".Fa \"void *arg\"\n"
 		    ".Fc\n", f) == EOF)
 			return 0;
@@ -558,10 +558,10 @@ gen_general(FILE *f, const struct config *cfg, int syn)
 	    ".It Ft \"struct ort *\" Fn db_open_logging\n"
 	    ".TS\n"
 	    "l l.\n"
-	    "file\tconst char\t*\n"
-	    "log\t(void *)(const char *, void *)\n"
-	    "log_short\t(void *)(const char *, ...)\n"
-	    "void *\targ\n"
+	    "file\tconst char *\n"
+	    "log\tvoid (*)(const char *, void *)\n"
+	    "log_short\tvoid (*)(const char *, ...)\n"
+	    "arg\tvoid *\n"
 	    ".TE\n"
 	    ".Pp\n"
 	    "Open a database\n"
@@ -1024,11 +1024,11 @@ gen_json_input(FILE *f, const struct strct *s, int syn)
 			".Fa \"const jsmntok_t *toks\"\n"
 			".Fa \"size_t toksz\"\n"
 			".Fc\n"
-			".Ft int\n"
+			".Ft void\n"
 			".Fo jsmn_%s_clear\n"
 			".Fa \"struct %s *p\"\n"
 			".Fc\n"
-			".Ft int\n"
+			".Ft void\n"
 			".Fo jsmn_%s_free_array\n"
 			".Fa \"struct %s *ps\"\n"
 			".Fa \"size_t psz\"\n"
@@ -1067,12 +1067,12 @@ gen_json_input(FILE *f, const struct strct *s, int syn)
 		"All fields must be specified.\n"
 		"On success, free with\n"
 		".Fn jsmn_%s_free_array .\n"
-		".It Ft int Fn jsmn_%s_clear\n"
+		".It Ft void Fn jsmn_%s_clear\n"
 		".TS\n"
 		"l l.\n"
 		"p\tstruct %s *\n"
 		".TE\n"
-		".It Ft int Fn jsmn_%s_free_array\n"
+		".It Ft void Fn jsmn_%s_free_array\n"
 		".TS\n"
 		"l l.\n"
 		"ps\tstruct %s *\n"
@@ -1257,7 +1257,7 @@ gen_json_inputs(FILE *f, const struct config *cfg, int syn)
 		    ".Fa \"const char *buf\"\n"
 		    ".Fa \"size_t sz\"\n"
 		    ".Fa \"jsmntok_t *toks\"\n"
-		    ".Fa \"junsigned int toksz\"\n"
+		    ".Fa \"unsigned int toksz\"\n"
 		    ".Fc\n"
 		    ".Ft int\n"
 		    ".Fo jsmn_eq\n"
-- 
2.43.0


From e2bb19681044c02cce5ccbf5afdadd681136a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 080/108] fix: document null constraints as passed by value

---
 lang-c-manpage.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 68ce7eb..f591e52 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -34,8 +34,13 @@
 #include "lang.h"
 #include "lang-c.h"
 
+/*
+ * Generate the type of a field as a function argument.
+ * The "flags" are those of the field, which determine if it's passed as
+ * a pointer: query and update constraints are always passed by value.
+ */
 static int
-gen_field_type(FILE *f, const struct field *fd)
+gen_field_type(FILE *f, const struct field *fd, unsigned int flags)
 {
 	const struct field	*rfd;
 	int			 c;
@@ -60,7 +65,7 @@ gen_field_type(FILE *f, const struct field *fd)
 
 	if (c < 0)
 		return 0;
-	if ((fd->flags & FIELD_NULL) && fputc('*', f) == EOF)
+	if ((flags & FIELD_NULL) && fputc('*', f) == EOF)
 		return 0;
 
 	return 1;
@@ -464,7 +469,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, sent->field))
+			if (!gen_field_type(f, sent->field, 0))
 				return 0;
 			if (fprintf(f, " %s\"\n",
 			    sent->field->name) < 0)
@@ -480,7 +485,7 @@ gen_query(FILE *f, const struct search *sr, int syn)
 			return 0;
 		if (fprintf(f, "%s\t", sent->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, sent->field))
+		if (!gen_field_type(f, sent->field, 0))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -749,7 +754,8 @@ gen_update(FILE *f, const struct update *up, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, ur->field))
+			if (!gen_field_type(f, ur->field,
+			    ur->field->flags))
 				return 0;
 			if (fprintf(f, " %s\"\n", ur->field->name) < 0)
 				return 0;
@@ -764,7 +770,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (fprintf(f, "%s\t%s\t",
 		    get_modtype_str(ur->mod), ur->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, ur->field))
+		if (!gen_field_type(f, ur->field, ur->field->flags))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -781,7 +787,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, ur->field))
+			if (!gen_field_type(f, ur->field, 0))
 				return 0;
 			if (fprintf(f, " %s\"\n", ur->field->name) < 0)
 				return 0;
@@ -802,7 +808,7 @@ gen_update(FILE *f, const struct update *up, int syn)
 		if (fprintf(f, "%s\t%s\t",
 		    get_optype_str(ur->op), ur->field->name) < 0)
 			return 0;
-		if (!gen_field_type(f, ur->field))
+		if (!gen_field_type(f, ur->field, 0))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
@@ -865,7 +871,7 @@ gen_insert(FILE *f, const struct strct *s, int syn)
 					return 0;
 			if (fputs(".Fa \"", f) == EOF)
 				return 0;
-			if (!gen_field_type(f, fd))
+			if (!gen_field_type(f, fd, fd->flags))
 				return 0;
 			if (fprintf(f, " %s\"\n", fd->name) < 0)
 				return 0;
@@ -877,7 +883,7 @@ gen_insert(FILE *f, const struct strct *s, int syn)
 				return 0;
 		if (fprintf(f, "%s\t", fd->name) < 0)
 			return 0;
-		if (!gen_field_type(f, fd))
+		if (!gen_field_type(f, fd, fd->flags))
 			return 0;
 		if (fputc('\n', f) == EOF)
 			return 0;
-- 
2.43.0


From 8f558b023930855f3ebd6b9c7977aea29e642804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 081/108] fix: escape documentation in the manual of the C API

---
 lang-c-manpage.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index f591e52..3238de5 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -83,8 +83,11 @@ gen_doc_block(FILE *f, const char *cp, int tail, int head)
 	if (*cp == '\0')
 		return 1;
 
+	if (head && fputs(".Pp\n", f) == EOF)
+		return 0;
+
 	while (*cp != '\0') {
-		if (*cp == '.' || *cp == '"')
+		if (*cp == '.' || *cp == '\'' || *cp == '"')
 			if (fputs("\\&", f) == EOF)
 				return 0;
 		for (sz = 0; *cp != '\0'; cp++) {
@@ -92,10 +95,10 @@ gen_doc_block(FILE *f, const char *cp, int tail, int head)
 				break;
 			if (*cp == '\\' && cp[1] == '"')
 				cp++;
-			if (head && sz == 0 && lines == 0)
-				if (fputs(".Pp\n", f) == EOF)
+			if (*cp == '\\') {
+				if (fputs("\\e", f) == EOF)
 					return 0;
-			if (fputc(*cp, f) == EOF)
+			} else if (fputc(*cp, f) == EOF)
 				return 0;
 			sz++;
 		}
-- 
2.43.0


From c6de5ed11f8092d5f8aad0fdf1ba44df761b970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 082/108] fix: fail when memory runs out while resolving names

---
 linker_resolve.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ddc4608..469e0be 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -93,7 +93,7 @@ resolve_struct_order(struct config *cfg, struct struct_order *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -121,7 +121,7 @@ resolve_struct_aggr(struct config *cfg, struct struct_aggr *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -151,7 +151,7 @@ resolve_struct_grouprow(struct config *cfg, struct struct_grouprow *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
@@ -210,7 +210,7 @@ resolve_struct_distinct(struct config *cfg, struct struct_distinct *r)
 		calloc(sizeof(struct field *), r->namesz);
 	if (r->result->chain == NULL) {
 		gen_err(cfg, &r->result->pos);
-		return -1;
+		return 0;
 	}
 	r->result->chainsz = r->namesz;
 
-- 
2.43.0


From 3e5fcee44d68eed20b9514dde8ade8d24af1da61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 083/108] fix: fail when functions of the C source cannot be
 generated

---
 lang-c-source.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 746b0d9..0f502c5 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2890,7 +2890,8 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	size_t			 sz;
 	int			 need_kcgi = 0,
 				 need_kcgijson = 0,
-				 need_sqlbox = 0;
+				 need_sqlbox = 0,
+				 rc = 1;
 	struct filldepq		 fq;
 	struct filldep		*fd;
 
@@ -3152,17 +3153,20 @@ ort_lang_c_source(const struct ort_lang_c *args,
 				return 0;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq)) {
+			rc = 0;
+			break;
+		}
 
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
 		free(fd);
 	}
 
-	return 1;
+	return rc;
 }
 
-- 
2.43.0


From a0c305769dd745bee0c480a921dc4509bb2cd880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 084/108] fix: fail when output cannot be written

---
 audit-json.c | 3 ++-
 cheader.c    | 3 ++-
 cmanpage.c   | 3 ++-
 csource.c    | 3 ++-
 javascript.c | 3 ++-
 json.c       | 3 ++-
 main.c       | 3 ++-
 mainaudit.c  | 3 ++-
 maindiff.c   | 3 ++-
 nodejs.c     | 3 ++-
 rust.c       | 3 ++-
 sql.c        | 3 ++-
 sqldiff.c    | 2 ++
 xliff.c      | 2 ++
 14 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/audit-json.c b/audit-json.c
index 6e296b9..aee2418 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -522,7 +522,8 @@ main(int argc, char *argv[])
 	}
 
 	gen_audit_json(cfg, aq, r, standalone);
-	rc = 1;
+	if (!(rc = fflush(stdout) == 0 && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/cheader.c b/cheader.c
index b83027f..12ff0fe 100644
--- a/cheader.c
+++ b/cheader.c
@@ -110,7 +110,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_header(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_header(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/cmanpage.c b/cmanpage.c
index 16a2e20..03a1338 100644
--- a/cmanpage.c
+++ b/cmanpage.c
@@ -93,7 +93,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_manpage(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/csource.c b/csource.c
index 6400838..226ef77 100644
--- a/csource.c
+++ b/csource.c
@@ -168,7 +168,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_c_source(&args, cfg, stdout)))
+		if (!(rc = ort_lang_c_source(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/javascript.c b/javascript.c
index 5bddea4..652047d 100644
--- a/javascript.c
+++ b/javascript.c
@@ -144,7 +144,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_javascript(cfg, &args, stdout)))
+		if (!(rc = ort_lang_javascript(cfg, &args, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/json.c b/json.c
index 16178b9..673c8b0 100644
--- a/json.c
+++ b/json.c
@@ -81,7 +81,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_json(&args, cfg, stdout)))
+		if (!(rc = ort_lang_json(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/main.c b/main.c
index 98fe232..4a5145b 100644
--- a/main.c
+++ b/main.c
@@ -74,7 +74,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_write_file(stdout, cfg)))
+		if (!(rc = ort_write_file(stdout, cfg) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/mainaudit.c b/mainaudit.c
index 591dd14..8d4261c 100644
--- a/mainaudit.c
+++ b/mainaudit.c
@@ -263,7 +263,8 @@ main(int argc, char *argv[])
 	}
 
 	audit_write(aq, verb);
-	rc = 1;
+	if (!(rc = fflush(stdout) == 0 && !ferror(stdout)))
+		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
 	ort_auditq_free(aq);
diff --git a/maindiff.c b/maindiff.c
index d99e614..49c5d21 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -174,7 +174,8 @@ main(int argc, char *argv[])
 
 	if (!ort_write_diff_file(stdout, q, 
 	    (const char *const *)&argv[confst], confsz,
-	    (const char *const *)argv, dconfsz)) {
+	    (const char *const *)argv, dconfsz) ||
+	    fflush(stdout) == EOF || ferror(stdout)) {
 		rc = -1;
 		warn(NULL);
 	}
diff --git a/nodejs.c b/nodejs.c
index 0463a41..b7ee13b 100644
--- a/nodejs.c
+++ b/nodejs.c
@@ -95,7 +95,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_nodejs(&args, cfg, stdout)))
+		if (!(rc = ort_lang_nodejs(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/rust.c b/rust.c
index 20ef3a9..1c8d771 100644
--- a/rust.c
+++ b/rust.c
@@ -79,7 +79,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_rust(&args, cfg, stdout)))
+		if (!(rc = ort_lang_rust(&args, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sql.c b/sql.c
index fc4cda4..fbdbb08 100644
--- a/sql.c
+++ b/sql.c
@@ -76,7 +76,8 @@ main(int argc, char *argv[])
 		goto out;
 
 	if ((rc = ort_parse_close(cfg)))
-		if (!(rc = ort_lang_sql(NULL, cfg, stdout)))
+		if (!(rc = ort_lang_sql(NULL, cfg, stdout) &&
+		    fflush(stdout) == 0 && !ferror(stdout)))
 			warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
diff --git a/sqldiff.c b/sqldiff.c
index 35b8929..58e1538 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -160,6 +160,8 @@ main(int argc, char *argv[])
 	}
 
 	rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq);
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout)))
+		rc = -1;
 	if (rc < 0) 
 		warn(NULL);
 	rc = rc > 0;
diff --git a/xliff.c b/xliff.c
index a20bb24..b8d3a77 100644
--- a/xliff.c
+++ b/xliff.c
@@ -185,6 +185,8 @@ main(int argc, char *argv[])
 
 	if (op == OP_EXTRACT && !rc)
 		rc = -1;
+	if (rc > 0 && (fflush(stdout) == EOF || ferror(stdout)))
+		rc = -1;
 	if (rc < 0) {
 		warn(NULL);
 		rc = 0;
-- 
2.43.0


From 2fc77302a5c227d4746729e10971626b9cff0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 085/108] fix: let arrays that couldn't be allocated be freed

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 0f502c5..7390556 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2588,9 +2588,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\tif (toksz < 1 || t[0].type != JSMN_ARRAY)\n"
 	    "\t\treturn 0;\n"
 	    "\n"
-	    "\t*sz = t[0].size;\n"
-	    "\tif ((*p = calloc(*sz, sizeof(struct %s))) == NULL)\n"
+	    "\tif ((*p = calloc(t[0].size, sizeof(struct %s))) == NULL)\n"
 	    "\t\treturn -1;\n"
+	    "\t*sz = t[0].size;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
 	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - (j+1));\n"
-- 
2.43.0


From d450d2ec0691e21dd53113542ad5081f72e25af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 086/108] fix: escape names that Rust reserves in ort-rust
 output

---
 lang-rust.c | 288 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 206 insertions(+), 82 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1df62c3..67b877e 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -85,41 +85,115 @@ static	const char *const optypes[OPTYPE__MAX] = {
 	"notnull", /* OPTYPE_NOTNULL */
 };
 
+/*
+ * Names allowed in a configuration but reserved in Rust.
+ * All of these may be used as raw identifiers.
+ */
+static	const char *const reserved[] = {
+	"abstract",
+	"async",
+	"await",
+	"become",
+	"box",
+	"dyn",
+	"false",
+	"final",
+	"fn",
+	"gen",
+	"impl",
+	"let",
+	"loop",
+	"macro",
+	"mod",
+	"move",
+	"mut",
+	"override",
+	"priv",
+	"pub",
+	"ref",
+	"trait",
+	"true",
+	"try",
+	"type",
+	"typeof",
+	"unsafe",
+	"unsized",
+	"use",
+	"yield",
+	NULL
+};
+
+/*
+ * Names that may not even be used as raw identifiers.
+ */
+static	const char *const reserved_raw[] = {
+	"crate",
+	"self",
+	"super",
+	NULL
+};
+
+/*
+ * Allocate "s" (a field name) such that it may be used as an identifier.
+ * Return NULL on allocation failure.
+ */
 static char *
 strdup_ident(const char *s)
 {
 	char	*cp;
-
-	if (strcasecmp(s, "self") == 0 ||
-	    strcasecmp(s, "type") == 0) {
-		if (asprintf(&cp, "r#%s", s) == -1)
-			return NULL;
-	} else
-		cp = strdup(s);
-
-	return cp;
+	size_t	 i;
+
+	for (i = 0; reserved[i] != NULL; i++)
+		if (strcasecmp(s, reserved[i]) == 0)
+			return asprintf(&cp, "r#%s", s) == -1 ?
+				NULL : cp;
+	for (i = 0; reserved_raw[i] != NULL; i++)
+		if (strcasecmp(s, reserved_raw[i]) == 0)
+			return asprintf(&cp, "%s_", s) == -1 ? 
+				NULL : cp;
+
+	return strdup(s);
 }
 
+/*
+ * Allocate "s" (a structure, enumeration, bitfield, item, or role name)
+ * in title-case such that it may be used as an identifier.
+ * The only title-case word reserved by Rust is "Self".
+ * Return NULL on allocation failure.
+ */
 static char *
 strdup_title(const char *s)
 {
 	char	*cp;
-	size_t	 offs = 0;
 
-	if (strcasecmp(s, "self") == 0 ||
-	    strcasecmp(s, "type") == 0) {
-		if (asprintf(&cp, "r#%s", s) == -1)
+	if (strcasecmp(s, "self") == 0) {
+		if (asprintf(&cp, "%s_", s) == -1)
 			return NULL;
-		offs = 2;
-	} else {
-		if ((cp = strdup(s)) == NULL)
-			return NULL;
-	}
+	} else if ((cp = strdup(s)) == NULL)
+		return NULL;
 
-	cp[offs] = (char)toupper((unsigned char)cp[offs]);
+	cp[0] = (char)toupper((unsigned char)cp[0]);
 	return cp;
 }
 
+/*
+ * Print "s" with the rules of strdup_title() or, if "title" is zero,
+ * strdup_ident().
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_name(FILE *f, const char *s, int title)
+{
+	char	*cp;
+	int	 rc;
+
+	if ((cp = title ? strdup_title(s) : strdup_ident(s)) == NULL)
+		return 0;
+	rc = fputs(cp, f) != EOF;
+	free(cp);
+	return rc;
+}
+
 /*
  * Return <0 on failure, >0 on success, 0 if nothing printed.
  */
@@ -141,11 +215,10 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
 	if (strcmp(r->name, "all") == 0)
 		return rc;
 
-	return fprintf(f, "%s%s == %sOrtrole::%c%s",
-	    rc > 0 ? " || ": "", cond,
-	    super ? "super::" : "",
-	    toupper((unsigned char)r->name[0]),
-	    r->name + 1) < 0 ? -1 : 1;
+	if (fprintf(f, "%s%s == %sOrtrole::",
+	    rc > 0 ? " || ": "", cond, super ? "super::" : "") < 0)
+		return -1;
+	return gen_name(f, r->name, 1) ? 1 : -1;
 }
 
 /*
@@ -184,9 +257,9 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
 		return 0;
 	if (fd->type == FTYPE_ENUM) {
-		if (fprintf(f, "data::%c%s",
-		    toupper((unsigned char)fd->enm->name[0]),
-		    fd->enm->name + 1) < 0)
+		if (fputs("data::", f) == EOF)
+			return 0;
+		if (!gen_name(f, fd->enm->name, 1))
 			return 0;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
@@ -202,7 +275,8 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 }
 
 static int
-gen_field_to_json(const struct field *fd, int first, FILE *f)
+gen_field_to_json(const struct field *fd, const char *name,
+	int first, FILE *f)
 {
 	const struct rref	*r;
 	int	 		 tabs = 16, rc = 0;
@@ -244,7 +318,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -254,7 +328,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			if (fprintf(f,
 			    "%*sret += &format!"
 			     "(\"\\\"{}\\\"\", self.%s);\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -268,7 +342,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -279,7 +353,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &format!(\"\\\"{}\\\"\", "
 			     "num_traits::ToPrimitive::to_i64"
 			     "(&self.%s).unwrap());\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -293,7 +367,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
@@ -307,7 +381,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &self.%s.to_json();\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs, "") < 0)
 				return -1;
 		}
@@ -322,7 +396,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
 			    tabs + 4, "", 
@@ -336,7 +410,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*sret += &base64::encode(&self.%s);\n"
 			    "%*sret += \"\\\"\";\n",
 			    tabs, "", 
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs, "") < 0)
 				return -1;
 		}
@@ -349,7 +423,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
-			    tabs, "", fd->name, 
+			    tabs, "", name, 
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -358,7 +432,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 		} else {
 			if (fprintf(f,
 			    "%*sret += &json_escape(&self.%s);\n",
-			    tabs, "", fd->name) < 0)
+			    tabs, "", name) < 0)
 				return -1;
 		}
 		break;
@@ -439,11 +513,15 @@ gen_data_strct(const struct strct *s, FILE *f)
 		goto out;
 
 	first = 1;
-	TAILQ_FOREACH(fd, &s->fq, entries)
-		if ((rc = gen_field_to_json(fd, first, f)) < 0)
+	TAILQ_FOREACH(fd, &s->fq, entries) {
+		free(cp);
+		if ((cp = strdup_ident(fd->name)) == NULL)
+			goto out;
+		if ((rc = gen_field_to_json(fd, cp, first, f)) < 0)
 			goto out;
 		else if (rc > 0)
 			first = 0;
+	}
 
 	ret = fprintf(f, "%16sret\n%12s}\n%8s}\n", "", "", "") >= 0;
 out:
@@ -860,15 +938,38 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	    "", "", "", "", "", "", "", "", "", "", "") >= 0;
 }
 
+/*
+ * Print the (possibly-nested) member being searched for.
+ * Return zero on failure, non-zero on success.
+ */
 static int
-gen_checkpass(FILE *f, size_t pos, const char *name,
-	enum optype type, const struct field *fd)
+gen_checkpass_field(FILE *f, const struct sent *sent)
 {
+	size_t	 i;
 
-	if ((fd->flags & FIELD_NULL) && fprintf(f,
-	    "v%zu.is_none() || obj.%s.is_none() ||", pos, name) < 0)
+	if (fputs("obj", f) == EOF)
 		return 0;
-	if (type == OPTYPE_EQUAL && fputc('!', f) == EOF)
+	for (i = 0; i < sent->chainsz; i++)
+		if (fputc('.', f) == EOF ||
+		    !gen_name(f, sent->chain[i]->name, 0))
+			return 0;
+	return 1;
+}
+
+static int
+gen_checkpass(FILE *f, size_t pos, const struct sent *sent)
+{
+	const struct field	*fd = sent->field;
+
+	if (fd->flags & FIELD_NULL) {
+		if (fprintf(f, "v%zu.is_none() || ", pos) < 0)
+			return 0;
+		if (!gen_checkpass_field(f, sent))
+			return 0;
+		if (fputs(".is_none() || ", f) == EOF)
+			return 0;
+	}
+	if (sent->op == OPTYPE_EQUAL && fputc('!', f) == EOF)
 		return 0;
 	if (fprintf(f, "verify(v%zu", pos) < 0)
 		return 0;
@@ -877,7 +978,7 @@ gen_checkpass(FILE *f, size_t pos, const char *name,
 		return 0;
 	if (!(fd->flags & FIELD_NULL) && fputs(", &", f) == EOF)
 		return 0;
-	if (fprintf(f, "obj.%s", name) < 0)
+	if (!gen_checkpass_field(f, sent))
 		return 0;
 	if ((fd->flags & FIELD_NULL) &&
 	    fputs(".as_ref().unwrap()", f) == EOF)
@@ -905,8 +1006,7 @@ gen_query_checkpass(FILE *f, const struct search *s, int ret)
 		}
 		if (fprintf(f, "%16sif ", "") < 0)
 			return 0;
-		if (!gen_checkpass(f, pos, sent->fname,
-		    sent->op, sent->field))
+		if (!gen_checkpass(f, pos, sent))
 			return 0;
 		if (ret && fprintf(f,
 		    "%20sreturn Ok(None);\n%16s}\n", "", "") < 0)
@@ -927,30 +1027,43 @@ static int
 gen_reffind(const struct strct *s, FILE *f)
 {
 	const struct field	*fd;
+	char			*name = NULL, *src = NULL;
+	int			 rc = 0;
 
 	if (!(s->flags & STRCT_HAS_NULLREFS))
 		return 1;
 
-	if (fprintf(f,
-	    "%8sfn db_%s_reffind(&self, obj: &mut data::%c%s) -> "
-	    "Result<()> {\n", "", s->name,
-	    toupper((unsigned char)s->name[0]), s->name + 1) < 0)
+	if (fprintf(f, "%8sfn db_%s_reffind(&self, obj: &mut data::",
+	    "", s->name) < 0)
+		return 0;
+	if (!gen_name(f, s->name, 1))
+		return 0;
+	if (fputs(") -> Result<()> {\n", f) == EOF)
 		return 0;
 
 	TAILQ_FOREACH(fd, &s->fq, entries) {
 		if (fd->type != FTYPE_STRUCT)
 			continue;
+
+		free(name);
+		free(src);
+		src = NULL;
+		if ((name = strdup_ident(fd->name)) == NULL)
+			goto out;
+		if ((src = strdup_ident(fd->ref->source->name)) == NULL)
+			goto out;
+
 		if (fd->ref->source->flags & FIELD_NULL) {
 			if (fprintf(f,
 			    "%12sif let Some(nobj) = obj.%s {\n"
 	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
-			    "", fd->ref->source->name, "") < 0)
-				return 0;
+			    "", src, "") < 0)
+				goto out;
 			if (gen_enum_unique
 			    (f, 1, fd->ref->target, LANG_RUST) < 0)
-				return 0;
+				goto out;
 			if (fputs(");\n", f) == EOF)
-				return 0;
+				goto out;
 			if (fprintf(f,
 			    "%16slet mut stmt = "
 			     "self.conn.prepare(&sql)?;\n"
@@ -967,10 +1080,10 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "Error::QueryReturnedNoRows);\n"
 			    "%16s}\n"
 			    "%12s}\n",
-			    "", "", "", "", "", "", "", fd->name,
+			    "", "", "", "", "", "", "", name,
 			    fd->ref->target->parent->name,
 			    "", "", "", "") < 0)
-				return 0;
+				goto out;
 		}
 		if (!(fd->ref->target->parent->flags &
 		      STRCT_HAS_NULLREFS))
@@ -978,12 +1091,16 @@ gen_reffind(const struct strct *s, FILE *f)
 		if (fprintf(f,
 		    "%12sif let Some(mut nobj) = obj.%s.as_mut() {\n"
 		    "%16sself.db_%s_reffind(&mut nobj)?;\n"
-		    "%12s}\n", "", fd->name, "",
+		    "%12s}\n", "", name, "",
 		    fd->ref->target->parent->name, "") < 0)
-			return 0;
+			goto out;
 	}
 
-	return fprintf(f, "%12sOk(())\n%8s}\n", "", "") >= 0;
+	rc = fprintf(f, "%12sOk(())\n%8s}\n", "", "") >= 0;
+out:
+	free(name);
+	free(src);
+	return rc;
 }
 
 static int
@@ -997,11 +1114,14 @@ gen_fill(const struct strct *s, FILE *f)
 
 	if (fprintf(f,
 	    "%8sfn db_%s_fill(&self, row: &Row, i: &mut usize) -> "
-	     "Result<data::%c%s> {\n"
+	     "Result<data::", "", s->name) < 0)
+		return 0;
+	if (!gen_name(f, s->name, 1))
+		return 0;
+	if (fprintf(f,
+	    "> {\n"
 	    "%12slet ncol: usize = *i;\n"
-	    "%12s*i += %zu;\n",
-	    "", s->name, toupper((unsigned char)s->name[0]),
-	    s->name + 1, "", "", cols) < 0)
+	    "%12s*i += %zu;\n", "", "", cols) < 0)
 		return 0;
 
 	col = scol = 0;
@@ -1021,27 +1141,32 @@ gen_fill(const struct strct *s, FILE *f)
 			col++;
 	}
 
-	if (fprintf(f, "%12sOk(data::%c%s {\n",
-	    "", toupper((unsigned char)s->name[0]), s->name + 1) < 0)
+	if (fprintf(f, "%12sOk(data::", "") < 0)
+		return 0;
+	if (!gen_name(f, s->name, 1))
+		return 0;
+	if (fputs(" {\n", f) == EOF)
 		return 0;
 
 	col = scol = 0;
 	TAILQ_FOREACH(fd, &s->fq, entries) {
+		if (fprintf(f, "%16s", "") < 0)
+			return 0;
+		if (!gen_name(f, fd->name, 0))
+			return 0;
+		if (fputs(": ", f) == EOF)
+			return 0;
 		switch (fd->type) {
 		case FTYPE_STRUCT:
 			if (fd->ref->source->flags & FIELD_NULL) {
-				if (fprintf(f, "%16s%s: "
-				    "None,\n", "", fd->name) < 0)
+				if (fputs("None,\n", f) == EOF)
 					return 0;
 			} else {
-				if (fprintf(f, "%16s%s: obj%zu,\n",
-				    "", fd->name, scol++) < 0)
+				if (fprintf(f, "obj%zu,\n", scol++) < 0)
 					return 0;
 			}
 			break;
 		case FTYPE_ENUM:
-			if (fprintf(f, "%16s%s: ", "", fd->name) < 0)
-				return 0;
 			if (fd->flags & FIELD_NULL) {
 				if (fprintf(f,
 				    "match obj%zu {\n"
@@ -1066,8 +1191,8 @@ gen_fill(const struct strct *s, FILE *f)
 			scol++;
 			break;
 		default:
-			if (fprintf(f, "%16s%s: row.get(ncol + %zu)?,"
-			    "\n", "", fd->name, col++) < 0)
+			if (fprintf(f, 
+			    "row.get(ncol + %zu)?,\n", col++) < 0)
 				return 0;
 			break;
 		}
@@ -1221,9 +1346,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 	 */
 
 	rs = s->dst != NULL ? s->dst->strct : s->parent;
-	if ((ret = strdup(rs->name)) == NULL)
+	if ((ret = strdup_title(rs->name)) == NULL)
 		return 0;
-	ret[0] = toupper((unsigned char)ret[0]);
 
 	if (fprintf(f, "%8spub fn db_%s_%s",
 	    "", s->parent->name, stypes[s->type]) < 0)
@@ -1432,11 +1556,11 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 {
 	const struct role	*rr;
 
-	if (fprintf(f,
-	    "%16sOrtrole::%c%s => {\n"
-	    "%20sif ",
-	    "", toupper((unsigned char)r->name[0]),
-	    r->name + 1, "") < 0)
+	if (fprintf(f, "%16sOrtrole::", "") < 0)
+		return 0;
+	if (!gen_name(f, r->name, 1))
+		return 0;
+	if (fprintf(f, " => {\n%20sif ", "") < 0)
 		return 0;
 	if (gen_role(f, r, 3, "newrole", 0, 0) < 0)
 		return 0;
-- 
2.43.0


From 328187426377a41717d89f928dfb005e5772c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 087/108] fix: pass enumerations as integers in ort-rust
 updates and null queries

---
 lang-rust.c | 55 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 67b877e..31a1636 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -274,6 +274,27 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	return 1;
 }
 
+/*
+ * Generate the enumeration parameter at the given position as passed to
+ * the database: as its (possibly null) integer value.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_enum_param(FILE *f, size_t pos, const struct field *fd)
+{
+
+	if (fd->flags & FIELD_NULL)
+		return fprintf(f,
+		    "%16smatch v%zu {\n"
+		    "%20sSome(x) => Some"
+		     "(ToPrimitive::to_i64(&x).unwrap()),\n"
+		    "%20sNone => None,\n"
+		    "%16s},\n", "", pos, "", "", "") >= 0;
+
+	return fprintf(f, "%16sToPrimitive::to_i64(&v%zu).unwrap(),\n",
+		"", pos) >= 0;
+}
+
 static int
 gen_field_to_json(const struct field *fd, const char *name,
 	int first, FILE *f)
@@ -898,6 +919,9 @@ gen_update(const struct update *up, size_t num, FILE *f)
 			if (fprintf(f, "%16shash%zu,\n", "", hash) < 0)
 				return 0;
 			hash++;
+		} else if (ref->field->type == FTYPE_ENUM) {
+			if (!gen_enum_param(f, pos, ref->field))
+				return 0;
 		} else {
 			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
 				return 0;
@@ -909,8 +933,13 @@ gen_update(const struct update *up, size_t num, FILE *f)
 		assert(ref->field->type != FTYPE_STRUCT);
 		if (OPTYPE_ISUNARY(ref->op))
 			continue;
-		if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
-			return 0;
+		if (ref->field->type == FTYPE_ENUM) {
+			if (!gen_enum_param(f, pos, ref->field))
+				return 0;
+		} else {
+			if (fprintf(f, "%16sv%zu,\n", "", pos) < 0)
+				return 0;
+		}
 		pos++;
 	}
 
@@ -1285,23 +1314,8 @@ gen_insert(const struct strct *s, FILE *f)
 				return 0;
 			break;
 		case FTYPE_ENUM:
-			if (fd->flags & FIELD_NULL) {
-				if (fprintf(f,
-				    "%16smatch v%zu {\n"
-				    "%20sSome(x) => Some"
-				     "(ToPrimitive::to_i64"
-				      "(&x).unwrap()),\n"
-				    "%20sNone => None,\n"
-				    "%16s},\n",
-				    "", pos, "", "", "") < 0)
-					return 0;
-			} else {
-				if (fprintf(f,
-				    "%16sToPrimitive::to_i64"
-				     "(&v%zu).unwrap(),\n",
-				    "", pos) < 0)
-					return 0;
-			}
+			if (!gen_enum_param(f, pos, fd))
+				return 0;
 			break;
 		default:
 			if (fprintf(f,
@@ -1424,8 +1438,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			continue;
 		switch (sent->field->type) {
 		case FTYPE_ENUM:
-			if (fprintf(f, "%16sToPrimitive::to_i64"
-			    "(&v%zu).unwrap(),\n", "", pos) < 0)
+			if (!gen_enum_param(f, pos, sent->field))
 				return 0;
 			break;
 		case FTYPE_PASSWORD:
-- 
2.43.0


From b7af70e7fe2329172113704763ba0b66910d0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 088/108] fix: follow non-integer and nested null references in
 ort-rust output

---
 lang-rust.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 31a1636..448b6a9 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1084,7 +1084,7 @@ gen_reffind(const struct strct *s, FILE *f)
 
 		if (fd->ref->source->flags & FIELD_NULL) {
 			if (fprintf(f,
-			    "%12sif let Some(nobj) = obj.%s {\n"
+			    "%12sif let Some(ref nobj) = obj.%s {\n"
 	    		    "%16slet sql = stmt::stmt_fmt(stmt::",
 			    "", src, "") < 0)
 				goto out;
@@ -1098,7 +1098,7 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "self.conn.prepare(&sql)?;\n"
 			    "%16slet mut rows = "
 			     "stmt.query(params![\n"
-			    "%20snobj,\n"
+			    "%20s%s,\n"
 			    "%16s])?;\n"
 			    "%16sif let Some(row) = rows.next()? {\n"
 			    "%20slet mut i = 0;\n"
@@ -1109,7 +1109,10 @@ gen_reffind(const struct strct *s, FILE *f)
 			     "Error::QueryReturnedNoRows);\n"
 			    "%16s}\n"
 			    "%12s}\n",
-			    "", "", "", "", "", "", "", name,
+			    "", "", "", 
+			    fd->ref->source->type == FTYPE_ENUM ?
+			    "ToPrimitive::to_i64(nobj).unwrap()" : 
+			    "nobj", "", "", "", "", name,
 			    fd->ref->target->parent->name,
 			    "", "", "", "") < 0)
 				goto out;
@@ -1117,6 +1120,14 @@ gen_reffind(const struct strct *s, FILE *f)
 		if (!(fd->ref->target->parent->flags &
 		      STRCT_HAS_NULLREFS))
 			continue;
+		if (!(fd->ref->source->flags & FIELD_NULL)) {
+			if (fprintf(f,
+			    "%12sself.db_%s_reffind(&mut obj.%s)?;\n",
+			    "", fd->ref->target->parent->name, 
+			    name) < 0)
+				goto out;
+			continue;
+		}
 		if (fprintf(f,
 		    "%12sif let Some(mut nobj) = obj.%s.as_mut() {\n"
 		    "%16sself.db_%s_reffind(&mut nobj)?;\n"
-- 
2.43.0


From 8f25c8a90bca5e84acb299e593ee0cc094146734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 089/108] fix: escape backslashes and control characters in
 JSON exported by Rust

---
 lang-rust.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 448b6a9..6bf5ca6 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -673,14 +673,16 @@ gen_data(const struct config *cfg, FILE *f)
 	    "%20s'\\r'   => escaped += \"\\\\r\",\n"
 	    "%20s'\\t'   => escaped += \"\\\\t\",\n"
 	    "%20s'\"'    => escaped += \"\\\\\\\"\",\n"
-	    "%20s'\\\\'   => escaped += \"\\\\\",\n"
+	    "%20s'\\\\'   => escaped += \"\\\\\\\\\",\n"
+	    "%20sc if c < ' ' => escaped += "
+	     "&format!(\"\\\\u{:04x}\", c as u32),\n"
 	    "%20sc      => escaped.push(c),\n"
 	    "%16s}\n"
 	    "%12s}\n"
 	    "%12sescaped.push('\"');\n"
 	    "%12sescaped\n"
 	    "%8s}\n",
-	    "", "", "", "", "", "", "", "", "",
+	    "", "", "", "", "", "", "", "", "", "",
 	    "", "", "", "", "", "", "", "", "") < 0)
 		return 0;
 
-- 
2.43.0


From 32ff294bda929ac7c8fffcb0bd98ca4229c29b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 090/108] fix: don't panic on passwords that aren't hashes in
 ort-rust output

---
 lang-rust.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-rust.c b/lang-rust.c
index 6bf5ca6..237b084 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1014,7 +1014,7 @@ gen_checkpass(FILE *f, size_t pos, const struct sent *sent)
 	if ((fd->flags & FIELD_NULL) &&
 	    fputs(".as_ref().unwrap()", f) == EOF)
 		return 0;
-	if (fputs(").unwrap() {\n", f) == EOF)
+	if (fputs(").unwrap_or(false) {\n", f) == EOF)
 		return 0;
 	return 1;
 }
-- 
2.43.0


From 95cdf14410481bf2dec3742ad1c05561f8338b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 091/108] fix: pass the role to nested exports in ort-rust
 output

Exporting a structure with nested structures didn't compile if roles
were enabled.
---
 lang-rust.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 237b084..b0cb522 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -300,8 +300,11 @@ gen_field_to_json(const struct field *fd, const char *name,
 	int first, FILE *f)
 {
 	const struct rref	*r;
+	const char		*role;
 	int	 		 tabs = 16, rc = 0;
 
+	role = TAILQ_EMPTY(&fd->parent->cfg->arq) ? "" : "role";
+
 	if (fd->flags & FIELD_NOEXPORT)
 		return 0;
 	if (fd->type == FTYPE_PASSWORD)
@@ -383,14 +386,14 @@ gen_field_to_json(const struct field *fd, const char *name,
 			if (fprintf(f,
 			    "%*sif let Some(ref x) = &self.%s {\n"
 			    "%*sret += \"{\";\n"
-			    "%*sret += &x.to_json();\n"
+			    "%*sret += &x.to_json(%s);\n"
 			    "%*sret += \"}\";\n"
 			    "%*s} else {\n"
 			    "%*sret += \"null\";\n"
 			    "%*s}\n",
 			    tabs, "", name, 
 			    tabs + 4, "", 
-			    tabs + 4, "", 
+			    tabs + 4, "", role,
 			    tabs + 4, "", 
 			    tabs, "", 
 			    tabs + 4, "", 
@@ -399,10 +402,10 @@ gen_field_to_json(const struct field *fd, const char *name,
 		} else {
 			if (fprintf(f,
 			    "%*sret += \"{\";\n"
-			    "%*sret += &self.%s.to_json();\n"
+			    "%*sret += &self.%s.to_json(%s);\n"
 			    "%*sret += \"}\";\n",
 			    tabs, "", 
-			    tabs, "", name, 
+			    tabs, "", name, role,
 			    tabs, "") < 0)
 				return -1;
 		}
-- 
2.43.0


From 8db525abf7cc61b074be4f64d35431c620d8ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 092/108] fix: separate fields exported by Rust if roles
 withhold some

If the first field was withheld from the role, the JSON began with a
comma.
---
 lang-rust.c | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index b0cb522..cc5a2f6 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -221,6 +221,27 @@ gen_role(FILE *f, const struct role *r, size_t tabs,
 	return gen_name(f, r->name, 1) ? 1 : -1;
 }
 
+/*
+ * See if gen_role() would generate anything for the map's roles: if
+ * there are no user-defined roles, there's nothing in "all".
+ * Return zero if it would not, non-zero if it would.
+ */
+static int
+rolemap_has_roles(const struct rolemap *rm)
+{
+	const struct rref	*rr;
+
+	if (rm == NULL)
+		return 0;
+
+	TAILQ_FOREACH(rr, &rm->rq, entries)
+		if (strcmp(rr->role->name, "all") != 0 ||
+		    !TAILQ_EMPTY(&rr->role->subrq))
+			return 1;
+
+	return 0;
+}
+
 /*
  * Recursively generate all roles allowed by this rolemap.
  * Return FALSE on failure, TRUE on success.
@@ -295,6 +316,11 @@ gen_enum_param(FILE *f, size_t pos, const struct field *fd)
 		"", pos) >= 0;
 }
 
+/*
+ * Generate the export of a field, "first" being non-zero if there aren't
+ * any prior fields that are always exported.
+ * Return <0 on failure, >0 if the field is always exported, 0 if it's not.
+ */
 static int
 gen_field_to_json(const struct field *fd, const char *name,
 	int first, FILE *f)
@@ -310,20 +336,31 @@ gen_field_to_json(const struct field *fd, const char *name,
 	if (fd->type == FTYPE_PASSWORD)
 		return 0;
 
-	if (fd->rolemap != NULL &&
-	    !TAILQ_EMPTY(&fd->rolemap->rq)) {
+	if (rolemap_has_roles(fd->rolemap)) {
 		if (fprintf(f, "%16sif !(", "") < 0)
-			return 0;
+			return -1;
 		TAILQ_FOREACH(r, &fd->rolemap->rq, entries) {
 			rc = gen_role(f, r->role, 5, "role", rc, 1);
 			if (rc < 0)
-				return 0;
+				return -1;
 		}
 		if (fputs(") {\n", f) == EOF)
-			return 0;
+			return -1;
 		tabs += 4;
 	}
 
+	/*
+	 * If roles may withhold all of the prior fields, it's not known
+	 * until run-time whether to have a separator.
+	 */
+
+	if (first && *role != '\0' && fprintf(f,
+	    "%*sif !ret.is_empty() {\n"
+	    "%*sret += \",\";\n"
+	    "%*s}\n",
+	    tabs, "", tabs + 4, "", tabs, "") < 0)
+		return -1;
+
 	if (fprintf(f, "%*sret += \"%s\\\"%s\\\":\";\n",
 	    tabs, "", first ? "" : ",", fd->name) < 0)
 		return -1;
@@ -462,8 +499,8 @@ gen_field_to_json(const struct field *fd, const char *name,
 		break;
 	}
 
-	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
-		return 0;
+	if (rolemap_has_roles(fd->rolemap))
+		return fprintf(f, "%16s}\n", "") < 0 ? -1 : 0;
 
 	return 1;
 }
-- 
2.43.0


From 1fdcd62e769d411bdf2ab852d1a3c2c84137cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 093/108] fix: deny operations without roles in ort-rust output

This brings Rust in line with C and Node.js.
---
 lang-rust.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index cc5a2f6..1d95abb 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -247,13 +247,25 @@ rolemap_has_roles(const struct rolemap *rm)
  * Return FALSE on failure, TRUE on success.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 {
 	const struct rref	*rr;
 	int			 rc = 0;
 
-	if (rm == NULL || TAILQ_EMPTY(&rm->rq))
+	if (TAILQ_EMPTY(&cfg->rq))
 		return 1;
+
+	/*
+	 * With roles, nobody may use operations without any.
+	 * Don't let the compiler know that this doesn't return, as it
+	 * would complain about what follows.
+	 */
+
+	if (!rolemap_has_roles(rm))
+		return fprintf(f, "%12sif true {\n"
+			"%16spanic!(\"role violation\");\n"
+			"%12s}\n", "", "", "") >= 0;
+
 	if (fprintf(f, "%12sif !(", "") < 0)
 		return 0;
 	TAILQ_FOREACH(rr, &rm->rq, entries) {
@@ -910,7 +922,7 @@ gen_update(const struct update *up, size_t num, FILE *f)
 	if (fprintf(f, ") -> Result<%s> {\n",
 	    up->type == UP_MODIFY ? "bool" : "()") < 0)
 		return 0;
-	if (!gen_rolemap(f, up->rolemap))
+	if (!gen_rolemap(f, up->parent->cfg, up->rolemap))
 		return 0;
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
 		return 0;
@@ -1309,7 +1321,7 @@ gen_insert(const struct strct *s, FILE *f)
 
 	if (fputs(") -> Result<i64> {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->ins->rolemap))
+	if (!gen_rolemap(f, s->cfg, s->ins->rolemap))
 		return 0;
 
 	if (fprintf(f,
@@ -1471,7 +1483,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 
 	if (fputs(" {\n", f) == EOF)
 		return 0;
-	if (!gen_rolemap(f, s->rolemap))
+	if (!gen_rolemap(f, s->parent->cfg, s->rolemap))
 		return 0;
 
 	if (fprintf(f, "%12slet sql = stmt::stmt_fmt(stmt::", "") < 0)
-- 
2.43.0


From c03b07bfc26758e99c4c2c68ee8fb645a2c1cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 094/108] fix: let ort-rust roles change, but to ancestors only

The functions to get and set the role weren't public, so it couldn't be
changed at all; and they'd have allowed for descendants instead.
---
 lang-rust.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1d95abb..5acf83c 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1624,9 +1624,9 @@ gen_query(const struct search *s, size_t num, FILE *f)
 }
 
 /*
- * Generate all of the possible transitions from the given role into all
- * possible roles, then all of the transitions from the roles "beneath"
- * the current role.
+ * Generate all of the possible transitions from the given role: into its
+ * ancestors and "none".  Then all of the transitions from the roles
+ * "beneath" the current role.
  * Return zero on failure, non-zero on success.
  */
 static int
@@ -1640,9 +1640,17 @@ gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 		return 0;
 	if (fprintf(f, " => {\n%20sif ", "") < 0)
 		return 0;
-	if (gen_role(f, r, 3, "newrole", 0, 0) < 0)
-		return 0;
-	if (fprintf(f, " {\n"
+	for (rr = r->parent; rr != NULL; rr = rr->parent) {
+		if (strcmp(rr->name, "all") == 0)
+			continue;
+		if (fputs("newrole == Ortrole::", f) == EOF)
+			return 0;
+		if (!gen_name(f, rr->name, 1))
+			return 0;
+		if (fputs(" || ", f) == EOF)
+			return 0;
+	}
+	if (fprintf(f, "newrole == Ortrole::None {\n"
 	    "%24sself.role = newrole;\n"
 	    "%24sreturn;\n"
 	    "%20s}\n"
@@ -1669,13 +1677,13 @@ gen_ortctx_dbrole(const struct config *cfg, FILE *f)
 		return 1;
 
 	if (fprintf(f,
-	    "%8sfn db_role_current(&self) -> Ortrole {\n"
+	    "%8spub fn db_role_current(&self) -> Ortrole {\n"
 	    "%12sreturn self.role;\n"
 	    "%8s}\n", "", "", "") < 0)
 		return 0;
 
 	if (fprintf(f,
-	    "%8sfn db_role(&mut self, newrole: Ortrole) {\n"
+	    "%8spub fn db_role(&mut self, newrole: Ortrole) {\n"
 	    "%12sif self.role == newrole {\n"
 	    "%16sreturn;\n"
 	    "%12s}\n"
-- 
2.43.0


From be3c5875a5e1e692dd1eb0b6e30cbaa3df3bf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 095/108] fix: report failures to follow null references in
 ort-rust output

The object was returned with the reference missing instead.
---
 lang-rust.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 5acf83c..005b0b0 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -1533,7 +1533,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 1);
@@ -1561,7 +1561,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 0);
@@ -1590,7 +1590,7 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			return 0;
 		if (rs->flags & STRCT_HAS_NULLREFS)
 		       if (fprintf(f,
-			   "%16sself.db_%s_reffind(&mut obj);\n",
+			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
 		gen_query_checkpass(f, s, 0);
-- 
2.43.0


From 8bf7c5eff1127056c1bac94011511fca7b1bc159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 096/108] fix: document the role methods of ort-rust output

---
 man/ort-rust.1 | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/man/ort-rust.1 b/man/ort-rust.1
index 0e21fcb..8584346 100644
--- a/man/ort-rust.1
+++ b/man/ort-rust.1
@@ -92,29 +92,28 @@ Each sequence of database interaction begins with the
 method from the application-wide
 .Vt Ortdb
 instance.
-.\" The resulting
-.\" .Vt Ortctx
-.\" object has the following role methods:
-.\" .Bl -tag -width Ds
-.\" .It Fn db_role "newrole: string" Ns No : void
-.\" If roles are enabled, move from the current role to
-.\" .Fa newrole .
-.\" If the role is the same as the current role, this does nothing.
-.\" Roles may only transition to ancestor roles, not descendant roles or
-.\" siblings, or any other non-ancestor roles.
-.\" The only exception is when leaving
-.\" .Qq default
-.\" or entering
-.\" .Qq none .
-.\" This does not return failure: on role violation, it invokes
-.\" .Fn process.abort .
-.\" .It Fn db_role_current Ns No : string
-.\" If roles are enabled, get the currently-assigned role.
-.\" If
-.\" .Fn db_role
-.\" hasn't yet been called, this will be
-.\" .Qq default .
-.\" .El
+The resulting
+.Vt Ortctx
+object has the following role methods:
+.Bl -tag -width Ds
+.It Fn db_role "newrole: Ortrole"
+If roles are enabled, move from the current role to
+.Fa newrole .
+If the role is the same as the current role, this does nothing.
+Roles may only transition to ancestor roles, not descendant roles or
+siblings, or any other non-ancestor roles.
+The only exception is when leaving
+.Vt Ortrole::Default
+or entering
+.Vt Ortrole::None .
+This does not return failure: on role violation, it panics.
+.It Fn db_role_current No -> Ft Ortrole
+If roles are enabled, get the currently-assigned role.
+If
+.Fn db_role
+hasn't yet been called, this will be
+.Vt Ortrole::Default .
+.El
 .\" .Pp
 .\" The following
 .\" .Vt ortctx
-- 
2.43.0


From e6ea71865f433b9fa6e4586f16084bdd0aae0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 097/108] fix: hide and show config-uniques as documented

---
 ort-json.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index e4b7812..65c4d50 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1727,6 +1727,7 @@ namespace ortJson {
 			if (strct.nq.length) {
 				this.showcl(e, 'config-uniques-has');
 				this.hidecl(e, 'config-uniques-none');
+				this.showcl(e, 'config-uniques');
 				const list: HTMLElement[] = 
 					this.list(e, 'config-uniques');
 				for (let i: number = 0; i < list.length; i++)
@@ -1734,6 +1735,7 @@ namespace ortJson {
 			} else {
 				this.hidecl(e, 'config-uniques-has');
 				this.showcl(e, 'config-uniques-none');
+				this.hidecl(e, 'config-uniques');
 			}
 
 			this.fillUpdateClassObj(e, 'deletes', strct, strct.dq, cb, arg);
-- 
2.43.0


From 6be077ccc8944d91b3cfd020f0fc2af0b1e4335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 098/108] fix: show the string limits of blobs and passwords

---
 ort-json.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ort-json.ts b/ort-json.ts
index 65c4d50..e741fba 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -2638,7 +2638,9 @@ namespace ortJson {
 				else if (field.type === 'real')
 					this.showcl(e, 
 						'config-field-limit-real');
-				else if (field.type === 'email' ||
+				else if (field.type === 'blob' ||
+				    field.type === 'email' ||
+				    field.type === 'password' ||
 				    field.type === 'text')
 					this.showcl(e, 
 						'config-field-limit-string');
-- 
2.43.0


From 0fd6ab4ce5c5cf491b1d247f8d327834016df589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 099/108] fix: skip item and label containers without children

---
 ort-json.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index e741fba..5d87481 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1263,6 +1263,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-eitems');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
@@ -1356,6 +1358,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-' + name + '-labels');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
@@ -1415,6 +1419,8 @@ namespace ortJson {
 			const list: HTMLElement[] = 
 				this.list(e, 'config-bitems');
 			for (let i: number = 0; i < list.length; i++) {
+				if (list[i].children.length === 0)
+					continue;
 				const tmpl: HTMLElement = 
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
-- 
2.43.0


From c1d4465d678ad286cbcbf5605b0dbc1d1471fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 100/108] fix: fill in bitfields in order of their names

---
 ort-json.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ort-json.ts b/ort-json.ts
index 5d87481..977efdf 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1080,12 +1080,12 @@ namespace ortJson {
 				const tmpl: HTMLElement =
 					<HTMLElement>list[i].children[0];
 				this.clr(list[i]);
-				for (const name in this.obj.bq) {
+				for (let j: number = 0; j < keys.length; j++) {
 					const cln: HTMLElement = 
 						<HTMLElement>
 						tmpl.cloneNode(true);
 					this.fillBitfObj(cln, 
-						this.obj.bq[name], cb, arg);
+						this.obj.bq[keys[j]], cb, arg);
 					list[i].appendChild(cln);
 				}
 				this.show(list[i]);
-- 
2.43.0


From 60f2b5e6f3b9cb04294f3a42bfcf47b90602592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 101/108] fix: hide the items of bitfields without items

---
 ort-json.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ort-json.ts b/ort-json.ts
index 977efdf..b89c9d6 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -1412,6 +1412,7 @@ namespace ortJson {
 				this.hidecl(e, 'config-bitems-has');
 				this.showcl(e, 'config-bitems-none');
 				this.hidecl(e, 'config-bitems');
+				return;
 			}
 			keys.sort();
 			this.showcl(e, 'config-bitems-has');
-- 
2.43.0


From 6bbef75441b3a1af0a55e80da6069263dd962ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 102/108] fix: give translations joined to labels the position
 of what they label

ort_lang_xliff_join() left the position of labels it adds to the
configuration unset, so formatting the configuration afterwards, e.g.,
with ort_lang_json(), dereferenced the NULL file name.
---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index bb89f29..d9121c2 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -674,6 +674,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
+	l->pos = *pos;
 	TAILQ_INSERT_TAIL(q, l, entries);
 	return (l->label = literal(targ)) == NULL ? -1 : 1;
 }
-- 
2.43.0


From c83dfa197190bfdd8415a8aef76d3f922133d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 103/108] fix: don't share the broken-down time between writers

ort_write_file() used localtime(3), whose result is shared by the whole
process: writing two configurations at once may have written the default
date of one into the other.
---
 writer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/writer.c b/writer.c
index 15cb286..6e17d69 100644
--- a/writer.c
+++ b/writer.c
@@ -197,7 +197,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	unsigned int	 fl;
 	int		 rc;
 	char		 buf[GEN_REALSZ];
-	struct tm	*tm;
+	struct tm	 tm;
 	time_t		 t;
 
 	/* Name, type, refs. */
@@ -259,11 +259,11 @@ parse_write_field(struct writer *w, const struct field *p)
 		case FTYPE_DATE:
 			/* This is the inverse of when it was parsed. */
 			t = (time_t)p->def.integer;
-			if ((tm = localtime(&t)) == NULL)
+			if (localtime_r(&t, &tm) == NULL)
 				return 0;
 			rc = wprint(w, " default %.4d-%.2d-%.2d",
-				tm->tm_year + 1900, 
-				tm->tm_mon + 1, tm->tm_mday);
+				tm.tm_year + 1900, 
+				tm.tm_mon + 1, tm.tm_mday);
 			break;
 		case FTYPE_REAL:
 			rc = wprint(w, " default %s",
-- 
2.43.0


From 285613637ca08832bd7d09cafd6ac8ebdb6278ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 104/108] fix: append messages to the queue

ort_msg() is documented as appending, but prepended: the operator was
shown messages in the reverse order of their occurrence.
---
 log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 6964efd..ec9bfda 100644
--- a/log.c
+++ b/log.c
@@ -47,7 +47,7 @@ ort_log(struct msgq *mq, enum msgtype type,
 		return;
 	}
 
-	TAILQ_INSERT_HEAD(mq, m, entries);
+	TAILQ_INSERT_TAIL(mq, m, entries);
 
 	m->type = type;
 	m->er = er;
-- 
2.43.0


From bc882e7f51b685b796f8900d6a9074431003ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 105/108] fix: notice failing to write passwords and parameters
 of Rust methods

---
 lang-rust.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 005b0b0..b39f5ff 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -279,6 +279,9 @@ gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
 		"%12s}\n", "", "") >= 0;
 }
 
+/*
+ * Return <0 on failure, >0 on success.
+ */
 static int
 gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 {
@@ -288,22 +291,22 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if (fprintf(f, "v%zu: ", pos) < 0)
 		return -1;
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
-		return 0;
+		return -1;
 	if (fd->type == FTYPE_ENUM) {
 		if (fputs("data::", f) == EOF)
-			return 0;
+			return -1;
 		if (!gen_name(f, fd->enm->name, 1))
-			return 0;
+			return -1;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
 		    strcmp(ftypes[fd->type], "f64"))
 			if (fputc('&', f) == EOF)
-				return 0;
+				return -1;
 		if (fputs(ftypes[fd->type], f) == EOF)
-			return 0;
+			return -1;
 	}
 	if ((fd->flags & FIELD_NULL) && fputs(">", f) == EOF)
-		return 0;
+		return -1;
 	return 1;
 }
 
@@ -1536,7 +1539,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f,
 		    "%16sreturn Ok(Some(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1564,7 +1568,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16scb(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1593,7 +1598,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj)?;\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16svec.push(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
-- 
2.43.0


From 04e5966f6c5c083a047941a89db1dfd9a41e571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 106/108] fix: notice failing to write Node.js passwords and
 diff file names

---
 lang-nodejs.c | 11 +++++++----
 writer-diff.c | 14 ++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 7c53686..4527a9d 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -134,7 +134,7 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 	    (fd->type == FTYPE_STRUCT &&
 	     (fd->ref->source->flags & FIELD_NULL))) {
 		if ((rc = fprintf(f, "|null")) < 0)
-			return 0;
+			return -1;
 		col += (size_t)rc;
 	}
 
@@ -1238,7 +1238,8 @@ gen_query(FILE *f, const struct config *cfg,
 		       if (fprintf(f, "\t\tthis.db_%s_reffind"
 			   "(this.#o, obj);\n", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f, "\t\treturn new "
 	  	    "ortns.%s(this.#role, obj);\n", rs->name) < 0)
 			return 0;
@@ -1255,7 +1256,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tcb(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n", rs->name) < 0)
@@ -1277,7 +1279,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tobjs.push(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n"
diff --git a/writer-diff.c b/writer-diff.c
index 4eb4d8d..034656f 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -1092,14 +1092,16 @@ ort_write_diff_file(FILE *f, const struct diffq *q,
 	size_t			 i;
 
 	for (i = 0; i < fromsz; i++)
-		fprintf(f, "--- %s\n", from[i]);
-	if (fromsz == 0)
-		fprintf(f, "--- <stdin>\n");
+		if (fprintf(f, "--- %s\n", from[i]) < 0)
+			return 0;
+	if (fromsz == 0 && fprintf(f, "--- <stdin>\n") < 0)
+		return 0;
 
 	for (i = 0; i < intosz; i++)
-		fprintf(f, "+++ %s\n", into[i]);
-	if (intosz == 0)
-		fprintf(f, "+++ <stdin>\n");
+		if (fprintf(f, "+++ %s\n", into[i]) < 0)
+			return 0;
+	if (intosz == 0 && fprintf(f, "+++ <stdin>\n") < 0)
+		return 0;
 
 	/* Write enumerations iff any have changed. */
 
-- 
2.43.0


From 56ef8c01cdc87b21dca96af582230d6b0116e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 107/108] fix: audit page: open with the overview, not the last
 structure

Setting the "checked" attribute, to whatever value, checks a radio button and
unchecks the others of its group.
---
 audit.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/audit.js b/audit.js
index d9d5010..74cc708 100644
--- a/audit.js
+++ b/audit.js
@@ -403,8 +403,10 @@
 		replcl(root, 'audit-name', audit.name);
 		attrcl(root, 'audit-label', 'for', audit.name);
 		attrcl(root, 'audit-view', 'id', audit.name);
-		attrcl(root, 'audit-view', 'checked', false);
 		attrcl(root, 'audit-view', 'value', num);
+		list = root.getElementsByClassName('audit-view');
+		for (i = 0; i < list.length; i++)
+			list[i].checked = false;
 
 		pct = ins = 0;
 
-- 
2.43.0


From 024d713b2f44c8072df663e2b7b9ba6e528b0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:09 +0000
Subject: [PATCH 108/108] fix: audits must not say that passwords are exported

Passwords are never part of exported objects: say so in the audit.
---
 audit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/audit.c b/audit.c
index 4c5af22..5a0ba69 100644
--- a/audit.c
+++ b/audit.c
@@ -86,6 +86,7 @@ follow(const struct strct *st, const struct role *r, struct auditq *aq,
 		TAILQ_FOREACH(fd, &st->fq, entries) {
 			a->ar.fds[i].fd = fd;
 			a->ar.fds[i].exported = 
+				fd->type != FTYPE_PASSWORD &&
 				!(fd->flags & FIELD_NOEXPORT) &&
 				!rolemap_has(fd->rolemap, r);
 			i++;
-- 
2.43.0

