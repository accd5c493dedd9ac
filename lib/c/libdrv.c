/*
 * Drive the libraries as an application would, by a script on standard input:
 *
 *   alloc C | parse C how path name | close C | free C | nulls
 *   op ID C kind [args...]
 *   par N, then lines "@k command", then join
 *
 * Output of operations goes to OUTDIR/out.m (or out.k in thread k), results
 * to standard output.  With hooks into the allocator (ASan), blocks belonging
 * to a finished configuration are watched for writes and frees.
 */
#include "config.h"
#include <sys/queue.h>
#include <sys/mman.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"

#define	MAXC	64
#define	MAXT	8

struct	slot {
	struct config	*cfg;
	int		 closed, failed;
	uint64_t	 sum;
	size_t		 nblk;
};

static struct slot slots[MAXC];
static const char *outdir;
static char *js_priv, *jsmn_src;
static pthread_mutex_t outmx = PTHREAD_MUTEX_INITIALIZER;
static __thread int curthr = -1;

static void
die(const char *what)
{
	fprintf(stderr, "libdrv: %s\n", what);
	_exit(99);
}

static void
say(const char *fmt, ...)
{
	va_list ap;

	pthread_mutex_lock(&outmx);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	fflush(stdout);
	pthread_mutex_unlock(&outmx);
}

/* ------------------------------------------------- watching of blocks */

#ifdef WATCH
int __sanitizer_install_malloc_and_free_hooks(
	void (*)(const volatile void *, size_t), void (*)(const volatile void *));

#define	TABSZ	(1u << 21)
struct	blk {
	const volatile void *p;
	uint32_t	sz;
	int		owner; /* slot + 1, 0 if gone */
};
static struct blk *tab;
static pthread_mutex_t tabmx = PTHREAD_MUTEX_INITIALIZER;
static __thread int rec; /* slot + 1 being built on this thread */
static __thread int freeing; /* slot + 1 being freed */
static __thread int inhook;

static struct blk *
lookup(const volatile void *p, int make)
{
	uint64_t h = ((uint64_t)(uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull;
	size_t i = (h >> 40) & (TABSZ - 1), n;

	for (n = 0; n < TABSZ; n++, i = (i + 1) & (TABSZ - 1)) {
		if (tab[i].p == p)
			return &tab[i];
		if (tab[i].p == NULL) {
			if (!make)
				return NULL;
			tab[i].p = p;
			return &tab[i];
		}
	}
	die("table full");
	return NULL;
}

static void
hook_malloc(const volatile void *p, size_t sz)
{
	struct blk *b;

	if (!rec || inhook || p == NULL)
		return;
	pthread_mutex_lock(&tabmx);
	b = lookup(p, 1);
	b->sz = sz;
	b->owner = rec;
	pthread_mutex_unlock(&tabmx);
}

static void
hook_free(const volatile void *p)
{
	struct blk *b;
	int o = 0;

	if (inhook || p == NULL)
		return;
	pthread_mutex_lock(&tabmx);
	if ((b = lookup(p, 0)) != NULL) {
		o = b->owner;
		b->owner = 0;
	}
	pthread_mutex_unlock(&tabmx);
	if (o && o != rec && o != freeing && slots[o - 1].closed) {
		inhook = 1;
		say("FREED %d\n", o - 1);
		inhook = 0;
	}
}

static uint64_t
checksum(int c, size_t *np)
{
	uint64_t s = 0;
	size_t i, j, n = 0;

	for (i = 0; i < TABSZ; i++)
		if (tab[i].owner == c + 1) {
			uint64_t h = 1469598103934665603ull ^ (uintptr_t)tab[i].p;
			const unsigned char *q = (const void *)tab[i].p;
			for (j = 0; j < tab[i].sz; j++)
				h = (h ^ q[j]) * 1099511628211ull;
			s += h;
			n++;
		}
	*np = n;
	return s;
}

static void
watch_init(void)
{
	tab = mmap(NULL, TABSZ * sizeof(struct blk), PROT_READ|PROT_WRITE,
	    MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (tab == MAP_FAILED)
		die("mmap");
	__sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
}
static void watch_on(int c) { rec = c + 1; }
static void watch_off(void) { rec = 0; }
static void
watch_fix(int c)
{
	slots[c].sum = checksum(c, &slots[c].nblk);
	if (slots[c].nblk == 0)
		die("nothing watched");
	say("watching %d %zu\n", c, slots[c].nblk);
}
static void
watch_check(const char *id, int c)
{
	size_t n;

	if (checksum(c, &n) != slots[c].sum || n != slots[c].nblk)
		say("MUTATED %s %d\n", id, c);
}
static void watch_freeing(int c) { freeing = c + 1; }
static void
watch_freed(int c)
{
	size_t n;

	freeing = 0;
	(void)checksum(c, &n);
	say("left %d %zu\n", c, n);
}
#else
static void watch_init(void) {}
static void watch_on(int c) { (void)c; }
static void watch_off(void) {}
static void watch_fix(int c) { (void)c; }
static void watch_check(const char *id, int c) { (void)id; (void)c; }
static void watch_freeing(int c) { (void)c; }
static void watch_freed(int c) { (void)c; }
#endif

/* ------------------------------------------------------ kinds of streams */

struct	dribble {
	char	*buf;
	size_t	 sz, at, k;
};

static ssize_t
dribble_read(void *arg, char *b, size_t sz)
{
	struct dribble *d = arg;
	size_t n = d->sz - d->at;

	d->k = d->k * 5 + 3;
	if (n > 1 + d->k % 7)
		n = 1 + d->k % 7;
	if (n > sz)
		n = sz;
	memcpy(b, d->buf + d->at, n);
	d->at += n;
	return n;
}

static char *
slurp(const char *path, size_t *szp)
{
	FILE *f = fopen(path, "r");
	char *b;
	size_t sz, n = 0, k;

	if (f == NULL)
		die(path);
	sz = 65536;
	if ((b = malloc(sz + 1)) == NULL)
		die("malloc");
	while ((k = fread(b + n, 1, sz - n, f)) > 0) {
		n += k;
		if (n == sz && (b = realloc(b, (sz *= 2) + 1)) == NULL)
			die("realloc");
	}
	fclose(f);
	b[n] = '\0';
	*szp = n;
	return b;
}

/* ------------------------------------------------------------ the dump */

/* Names of enumerations, independent of their values. */
#define	NAME(_t, _v) ((size_t)(_v) < sizeof(_t) / sizeof(_t[0]) && (_t)[_v] != NULL ? (_t)[_v] : "?")
static const char *const n_ftype[] = {
	[FTYPE_BIT] = "bit", [FTYPE_DATE] = "date", [FTYPE_EPOCH] = "epoch", [FTYPE_INT] = "int",
	[FTYPE_REAL] = "real", [FTYPE_BLOB] = "blob", [FTYPE_TEXT] = "text", [FTYPE_PASSWORD] = "password",
	[FTYPE_EMAIL] = "email", [FTYPE_STRUCT] = "struct", [FTYPE_ENUM] = "enum", [FTYPE_BITFIELD] = "bits" };
static const char *const n_vtype[] = {
	[VALIDATE_GE] = "ge", [VALIDATE_LE] = "le", [VALIDATE_GT] = "gt", [VALIDATE_LT] = "lt", [VALIDATE_EQ] = "eq" };
static const char *const n_upact[] = {
	[UPACT_NONE] = "none", [UPACT_RESTRICT] = "restrict", [UPACT_NULLIFY] = "nullify",
	[UPACT_CASCADE] = "cascade", [UPACT_DEFAULT] = "default" };
static const char *const n_op[] = {
	[OPTYPE_EQUAL] = "eq", [OPTYPE_GE] = "ge", [OPTYPE_GT] = "gt", [OPTYPE_LE] = "le", [OPTYPE_LT] = "lt",
	[OPTYPE_NEQUAL] = "neq", [OPTYPE_LIKE] = "like", [OPTYPE_AND] = "and", [OPTYPE_OR] = "or",
	[OPTYPE_STREQ] = "streq", [OPTYPE_STRNEQ] = "strneq", [OPTYPE_ISNULL] = "isnull", [OPTYPE_NOTNULL] = "notnull" };
static const char *const n_mod[] = {
	[MODTYPE_CONCAT] = "concat", [MODTYPE_DEC] = "dec", [MODTYPE_INC] = "inc", [MODTYPE_SET] = "set",
	[MODTYPE_STRSET] = "strset" };
static const char *const n_rm[] = {
	[ROLEMAP_ALL] = "all", [ROLEMAP_COUNT] = "count", [ROLEMAP_DELETE] = "delete", [ROLEMAP_INSERT] = "insert",
	[ROLEMAP_ITERATE] = "iterate", [ROLEMAP_LIST] = "list", [ROLEMAP_SEARCH] = "search",
	[ROLEMAP_UPDATE] = "update", [ROLEMAP_NOEXPORT] = "noexport" };
static const char *const n_ord[] = { [ORDTYPE_ASC] = "asc", [ORDTYPE_DESC] = "desc" };
static const char *const n_aggr[] = { [AGGR_MAXROW] = "maxrow", [AGGR_MINROW] = "minrow" };
static const char *const n_stype[] = {
	[STYPE_COUNT] = "count", [STYPE_SEARCH] = "search", [STYPE_LIST] = "list", [STYPE_ITERATE] = "iterate" };
static const char *const n_up[] = { [UP_MODIFY] = "update", [UP_DELETE] = "delete" };
static const char *const n_msg[] = { [MSGTYPE_WARN] = "warning", [MSGTYPE_ERROR] = "error", [MSGTYPE_FATAL] = "fatal" };
static const char *const n_diff[] = {
	[DIFF_ADD_BITF] = "add_bitf",
	[DIFF_ADD_BITIDX] = "add_bitidx",
	[DIFF_ADD_EITEM] = "add_eitem",
	[DIFF_ADD_ENM] = "add_enm",
	[DIFF_ADD_FIELD] = "add_field",
	[DIFF_ADD_INSERT] = "add_insert",
	[DIFF_ADD_ROLE] = "add_role",
	[DIFF_ADD_ROLES] = "add_roles",
	[DIFF_ADD_SEARCH] = "add_search",
	[DIFF_ADD_STRCT] = "add_strct",
	[DIFF_ADD_UNIQUE] = "add_unique",
	[DIFF_ADD_UPDATE] = "add_update",
	[DIFF_DEL_BITF] = "del_bitf",
	[DIFF_DEL_BITIDX] = "del_bitidx",
	[DIFF_DEL_EITEM] = "del_eitem",
	[DIFF_DEL_ENM] = "del_enm",
	[DIFF_DEL_FIELD] = "del_field",
	[DIFF_DEL_INSERT] = "del_insert",
	[DIFF_DEL_ROLE] = "del_role",
	[DIFF_DEL_ROLES] = "del_roles",
	[DIFF_DEL_SEARCH] = "del_search",
	[DIFF_DEL_STRCT] = "del_strct",
	[DIFF_DEL_UNIQUE] = "del_unique",
	[DIFF_DEL_UPDATE] = "del_update",
	[DIFF_MOD_BITF] = "mod_bitf",
	[DIFF_MOD_BITF_COMMENT] = "mod_bitf_comment",
	[DIFF_MOD_BITF_LABELS] = "mod_bitf_labels",
	[DIFF_MOD_BITIDX] = "mod_bitidx",
	[DIFF_MOD_BITIDX_COMMENT] = "mod_bitidx_comment",
	[DIFF_MOD_BITIDX_LABELS] = "mod_bitidx_labels",
	[DIFF_MOD_BITIDX_VALUE] = "mod_bitidx_value",
	[DIFF_MOD_EITEM] = "mod_eitem",
	[DIFF_MOD_EITEM_COMMENT] = "mod_eitem_comment",
	[DIFF_MOD_EITEM_LABELS] = "mod_eitem_labels",
	[DIFF_MOD_EITEM_VALUE] = "mod_eitem_value",
	[DIFF_MOD_ENM] = "mod_enm",
	[DIFF_MOD_ENM_COMMENT] = "mod_enm_comment",
	[DIFF_MOD_ENM_LABELS] = "mod_enm_labels",
	[DIFF_MOD_FIELD] = "mod_field",
	[DIFF_MOD_FIELD_ACTIONS] = "mod_field_actions",
	[DIFF_MOD_FIELD_BITF] = "mod_field_bitf",
	[DIFF_MOD_FIELD_COMMENT] = "mod_field_comment",
	[DIFF_MOD_FIELD_DEF] = "mod_field_def",
	[DIFF_MOD_FIELD_ENM] = "mod_field_enm",
	[DIFF_MOD_FIELD_FLAGS] = "mod_field_flags",
	[DIFF_MOD_FIELD_REFERENCE] = "mod_field_reference",
	[DIFF_MOD_FIELD_ROLEMAP] = "mod_field_rolemap",
	[DIFF_MOD_FIELD_TYPE] = "mod_field_type",
	[DIFF_MOD_FIELD_VALIDS] = "mod_field_valids",
	[DIFF_MOD_INSERT] = "mod_insert",
	[DIFF_MOD_INSERT_PARAMS] = "mod_insert_params",
	[DIFF_MOD_INSERT_ROLEMAP] = "mod_insert_rolemap",
	[DIFF_MOD_ROLE] = "mod_role",
	[DIFF_MOD_ROLE_CHILDREN] = "mod_role_children",
	[DIFF_MOD_ROLE_COMMENT] = "mod_role_comment",
	[DIFF_MOD_ROLE_PARENT] = "mod_role_parent",
	[DIFF_MOD_ROLES] = "mod_roles",
	[DIFF_MOD_SEARCH] = "mod_search",
	[DIFF_MOD_SEARCH_AGGR] = "mod_search_aggr",
	[DIFF_MOD_SEARCH_COMMENT] = "mod_search_comment",
	[DIFF_MOD_SEARCH_DISTINCT] = "mod_search_distinct",
	[DIFF_MOD_SEARCH_GROUP] = "mod_search_group",
	[DIFF_MOD_SEARCH_LIMIT] = "mod_search_limit",
	[DIFF_MOD_SEARCH_OFFSET] = "mod_search_offset",
	[DIFF_MOD_SEARCH_ORDER] = "mod_search_order",
	[DIFF_MOD_SEARCH_PARAMS] = "mod_search_params",
	[DIFF_MOD_SEARCH_ROLEMAP] = "mod_search_rolemap",
	[DIFF_MOD_STRCT] = "mod_strct",
	[DIFF_MOD_STRCT_COMMENT] = "mod_strct_comment",
	[DIFF_MOD_UPDATE] = "mod_update",
	[DIFF_MOD_UPDATE_COMMENT] = "mod_update_comment",
	[DIFF_MOD_UPDATE_FLAGS] = "mod_update_flags",
	[DIFF_MOD_UPDATE_PARAMS] = "mod_update_params",
	[DIFF_MOD_UPDATE_ROLEMAP] = "mod_update_rolemap",
	[DIFF_SAME_BITF] = "same_bitf",
	[DIFF_SAME_BITIDX] = "same_bitidx",
	[DIFF_SAME_EITEM] = "same_eitem",
	[DIFF_SAME_ENM] = "same_enm",
	[DIFF_SAME_FIELD] = "same_field",
	[DIFF_SAME_INSERT] = "same_insert",
	[DIFF_SAME_ROLE] = "same_role",
	[DIFF_SAME_ROLES] = "same_roles",
	[DIFF_SAME_SEARCH] = "same_search",
	[DIFF_SAME_STRCT] = "same_strct",
	[DIFF_SAME_UPDATE] = "same_update",
};

struct	idmap {
	const void	*p;
	char		 id[24];
};
struct	ids {
	struct idmap	*m;
	size_t		 n, max;
};

static void
reg(struct ids *t, const void *p, const char *fmt, ...)
{
	va_list ap;

	if (p == NULL)
		return;
	if (t->n == t->max) {
		t->max = t->max ? t->max * 2 : 256;
		if ((t->m = realloc(t->m, t->max * sizeof(struct idmap))) == NULL)
			die("realloc");
	}
	t->m[t->n].p = p;
	va_start(ap, fmt);
	vsnprintf(t->m[t->n++].id, sizeof(t->m[0].id), fmt, ap);
	va_end(ap);
}

static int
idcmp(const void *a, const void *b)
{
	const struct idmap *x = a, *y = b;

	return x->p < y->p ? -1 : x->p > y->p;
}

static const char *
idof(const struct ids *t, const void *p)
{
	struct idmap k, *m;

	if (p == NULL)
		return "-";
	k.p = p;
	m = bsearch(&k, t->m, t->n, sizeof(k), idcmp);
	return m == NULL ? "?" : m->id;
}

static void
str(FILE *f, const char *k, const char *s)
{
	fprintf(f, "\"%s\": ", k);
	if (s == NULL) {
		fputs("null", f);
		return;
	}
	fputc('"', f);
	for ( ; *s != '\0'; s++)
		fprintf(f, "%.2x", (unsigned char)*s);
	fputc('"', f);
}

static void
dpos(FILE *f, const struct pos *p)
{
	fputs("\"pos\": {", f);
	str(f, "fname", p->fname);
	fprintf(f, ", \"line\": %zu, \"column\": %zu}", p->line, p->column);
}

static void
id(FILE *f, const struct ids *t, const char *k, const void *p)
{
	fprintf(f, "\"%s\": \"%s\"", k, idof(t, p));
}

#define	COMMA fputs(", ", f)

static void
dlabels(FILE *f, const char *k, const struct labelq *q)
{
	const struct label *l;
	int n = 0;

	fprintf(f, "\"%s\": [", k);
	TAILQ_FOREACH(l, q, entries) {
		fprintf(f, "%s{\"lang\": %zu, ", n++ ? ", " : "", l->lang);
		str(f, "label", l->label); COMMA;
		dpos(f, &l->pos);
		fputc('}', f);
	}
	fputc(']', f);
}

static void
dchain(FILE *f, const struct ids *t, struct field *const *c, size_t sz)
{
	size_t i;

	fputs("\"chain\": [", f);
	for (i = 0; i < sz; i++)
		fprintf(f, "%s\"%s\"", i ? ", " : "", idof(t, c[i]));
	fputc(']', f);
}

static void
dalias(FILE *f, const struct ids *t, const struct alias *a)
{
	id(f, t, "alias", a);
}

static void
durefs(FILE *f, const struct ids *t, const char *k, const struct urefq *q)
{
	const struct uref *u;
	int n = 0;

	fprintf(f, "\"%s\": [", k);
	TAILQ_FOREACH(u, q, entries) {
		fprintf(f, "%s{\"op\": \"%s\", \"mod\": \"%s\", ", n++ ? ", " : "", NAME(n_op, u->op), NAME(n_mod, u->mod));
		id(f, t, "field", u->field); COMMA;
		id(f, t, "parent", u->parent); COMMA;
		dpos(f, &u->pos);
		fputc('}', f);
	}
	fputc(']', f);
}

static void
dupdates(FILE *f, const struct ids *t, const char *k, const struct updateq *q)
{
	const struct update *u;
	int n = 0;

	fprintf(f, "\"%s\": [", k);
	TAILQ_FOREACH(u, q, entries) {
		fprintf(f, "%s{", n++ ? ", " : "");
		id(f, t, "id", u); COMMA;
		str(f, "name", u->name); COMMA;
		str(f, "doc", u->doc); COMMA;
		fprintf(f, "\"type\": \"%s\", \"all\": %d, \"xflags\": %u, ", NAME(n_up, u->type),
		    !!(u->flags & UPDATE_ALL), u->flags & ~UPDATE_ALL);
		id(f, t, "parent", u->parent); COMMA;
		id(f, t, "rolemap", u->rolemap); COMMA;
		durefs(f, t, "mrq", &u->mrq); COMMA;
		durefs(f, t, "crq", &u->crq); COMMA;
		dpos(f, &u->pos);
		fputc('}', f);
	}
	fputc(']', f);
}

static void
dfield(FILE *f, const struct ids *t, const struct field *p)
{
	const struct fvalid *v;
	int n = 0;

	fputc('{', f);
	id(f, t, "id", p); COMMA;
	str(f, "name", p->name); COMMA;
	str(f, "doc", p->doc); COMMA;
	fprintf(f, "\"type\": \"%s\", \"rowid\": %d, \"unique\": %d, \"null\": %d, \"noexport\": %d, "
	    "\"hasdef\": %d, \"xflags\": %u, \"actdel\": \"%s\", \"actup\": \"%s\", ",
	    NAME(n_ftype, p->type), !!(p->flags & FIELD_ROWID), !!(p->flags & FIELD_UNIQUE),
	    !!(p->flags & FIELD_NULL), !!(p->flags & FIELD_NOEXPORT), !!(p->flags & FIELD_HASDEF),
	    p->flags & ~(FIELD_ROWID|FIELD_UNIQUE|FIELD_NULL|FIELD_NOEXPORT|FIELD_HASDEF),
	    NAME(n_upact, p->actdel), NAME(n_upact, p->actup));
	id(f, t, "parent", p->parent); COMMA;
	id(f, t, "enm", p->enm); COMMA;
	id(f, t, "bitf", p->bitf); COMMA;
	id(f, t, "rolemap", p->rolemap); COMMA;
	if (p->ref == NULL)
		fputs("\"ref\": null, ", f);
	else {
		fputs("\"ref\": {", f);
		id(f, t, "target", p->ref->target); COMMA;
		id(f, t, "source", p->ref->source); COMMA;
		id(f, t, "parent", p->ref->parent);
		fputs("}, ", f);
	}
	if (p->flags & FIELD_HASDEF) {
		switch (p->type) {
		case FTYPE_REAL:
			fprintf(f, "\"def\": \"%.17g\", ", p->def.decimal);
			break;
		case FTYPE_EMAIL:
		case FTYPE_TEXT:
			str(f, "def", p->def.string); COMMA;
			break;
		case FTYPE_ENUM:
			id(f, t, "def", p->def.eitem); COMMA;
			break;
		default:
			fprintf(f, "\"def\": \"%" PRId64 "\", ", p->def.integer);
			break;
		}
	}
	fputs("\"fvq\": [", f);
	TAILQ_FOREACH(v, &p->fvq, entries) {
		fprintf(f, "%s[\"%s\", \"", n++ ? ", " : "", NAME(n_vtype, v->type));
		switch (p->type) {
		case FTYPE_REAL:
			fprintf(f, "%.17g", v->d.value.decimal);
			break;
		case FTYPE_BLOB:
		case FTYPE_TEXT:
		case FTYPE_PASSWORD:
		case FTYPE_EMAIL:
			fprintf(f, "%zu", v->d.value.len);
			break;
		default:
			fprintf(f, "%" PRId64, v->d.value.integer);
			break;
		}
		fputs("\"]", f);
	}
	fputs("], ", f);
	dpos(f, &p->pos);
	fputc('}', f);
}

static void
dsearch(FILE *f, const struct ids *t, const struct search *s)
{
	const struct sent *e;
	const struct ord *o;
	int n = 0;

	fputc('{', f);
	id(f, t, "id", s); COMMA;
	str(f, "name", s->name); COMMA;
	str(f, "doc", s->doc); COMMA;
	fprintf(f, "\"type\": \"%s\", \"uniq\": %d, \"xflags\": %u, \"limit\": %" PRId64
	    ", \"offset\": %" PRId64 ", ", NAME(n_stype, s->type),
	    !!(s->flags & SEARCH_IS_UNIQUE), s->flags & ~SEARCH_IS_UNIQUE, s->limit, s->offset);
	id(f, t, "parent", s->parent); COMMA;
	id(f, t, "rolemap", s->rolemap); COMMA;
	fputs("\"sntq\": [", f);
	TAILQ_FOREACH(e, &s->sntq, entries) {
		fprintf(f, "%s{\"op\": \"%s\", ", n++ ? ", " : "", NAME(n_op, e->op));
		str(f, "name", e->name); COMMA;
		str(f, "fname", e->fname); COMMA;
		str(f, "uname", e->uname); COMMA;
		id(f, t, "field", e->field); COMMA;
		id(f, t, "parent", e->parent); COMMA;
		dalias(f, t, e->alias); COMMA;
		dchain(f, t, e->chain, e->chainsz); COMMA;
		dpos(f, &e->pos);
		fputc('}', f);
	}
	fputs("], \"ordq\": [", f);
	n = 0;
	TAILQ_FOREACH(o, &s->ordq, entries) {
		fprintf(f, "%s{\"op\": \"%s\", ", n++ ? ", " : "", NAME(n_ord, o->op));
		str(f, "name", o->name); COMMA;
		str(f, "fname", o->fname); COMMA;
		id(f, t, "field", o->field); COMMA;
		id(f, t, "parent", o->parent); COMMA;
		dalias(f, t, o->alias); COMMA;
		dchain(f, t, o->chain, o->chainsz); COMMA;
		dpos(f, &o->pos);
		fputc('}', f);
	}
	fputs("], ", f);
	if (s->aggr != NULL) {
		fprintf(f, "\"aggr\": {\"op\": \"%s\", ", NAME(n_aggr, s->aggr->op));
		str(f, "name", s->aggr->name); COMMA;
		str(f, "fname", s->aggr->fname); COMMA;
		id(f, t, "field", s->aggr->field); COMMA;
		id(f, t, "parent", s->aggr->parent); COMMA;
		dalias(f, t, s->aggr->alias); COMMA;
		dchain(f, t, s->aggr->chain, s->aggr->chainsz); COMMA;
		dpos(f, &s->aggr->pos);
		fputs("}, ", f);
	}
	if (s->group != NULL) {
		fputs("\"group\": {", f);
		str(f, "name", s->group->name); COMMA;
		str(f, "fname", s->group->fname); COMMA;
		id(f, t, "field", s->group->field); COMMA;
		id(f, t, "parent", s->group->parent); COMMA;
		dalias(f, t, s->group->alias); COMMA;
		dchain(f, t, s->group->chain, s->group->chainsz); COMMA;
		dpos(f, &s->group->pos);
		fputs("}, ", f);
	}
	if (s->dst != NULL) {
		fputs("\"dst\": {", f);
		str(f, "fname", s->dst->fname); COMMA;
		id(f, t, "strct", s->dst->strct); COMMA;
		id(f, t, "parent", s->dst->parent); COMMA;
		dchain(f, t, s->dst->chain, s->dst->chainsz); COMMA;
		dpos(f, &s->dst->pos);
		fputs("}, ", f);
	}
	dpos(f, &s->pos);
	fputc('}', f);
}

static void
dstrct(FILE *f, const struct ids *t, const struct config *cfg, const struct strct *s)
{
	const struct field *fd;
	const struct search *sr;
	const struct alias *a;
	const struct unique *u;
	const struct nref *r;
	const struct rolemap *m;
	const struct rref *rr;
	int n = 0, k;

	fputc('{', f);
	id(f, t, "id", s); COMMA;
	str(f, "name", s->name); COMMA;
	str(f, "doc", s->doc); COMMA;
	id(f, t, "rowid", s->rowid); COMMA;
	fprintf(f, "\"queue\": %d, \"iterator\": %d, \"blob\": %d, \"nullrefs\": %d, \"cfg\": %d, ",
	    !!(s->flags & STRCT_HAS_QUEUE), !!(s->flags & STRCT_HAS_ITERATOR),
	    !!(s->flags & STRCT_HAS_BLOB), !!(s->flags & STRCT_HAS_NULLREFS), s->cfg == cfg);
	fputs("\"fq\": [", f);
	TAILQ_FOREACH(fd, &s->fq, entries) {
		if (n++)
			COMMA;
		dfield(f, t, fd);
	}
	fputs("], \"sq\": [", f);
	n = 0;
	TAILQ_FOREACH(sr, &s->sq, entries) {
		if (n++)
			COMMA;
		dsearch(f, t, sr);
	}
	fputs("], \"aq\": [", f);
	n = 0;
	TAILQ_FOREACH(a, &s->aq, entries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, t, "id", a); COMMA;
		str(f, "name", a->name); COMMA;
		str(f, "alias", a->alias);
		fputc('}', f);
	}
	fputs("], ", f);
	dupdates(f, t, "uq", &s->uq); COMMA;
	dupdates(f, t, "dq", &s->dq);
	fputs(", \"nq\": [", f);
	n = 0;
	TAILQ_FOREACH(u, &s->nq, entries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, t, "parent", u->parent);
		fputs(", \"nq\": [", f);
		k = 0;
		TAILQ_FOREACH(r, &u->nq, entries) {
			fputs(k++ ? ", {" : "{", f);
			id(f, t, "field", r->field);
			fprintf(f, ", \"parent\": %d, ", r->parent == u);
			dpos(f, &r->pos);
			fputc('}', f);
		}
		fputs("], ", f);
		dpos(f, &u->pos);
		fputc('}', f);
	}
	fputs("], \"rq\": [", f);
	n = 0;
	TAILQ_FOREACH(m, &s->rq, entries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, t, "id", m); COMMA;
		fprintf(f, "\"type\": \"%s\", ", NAME(n_rm, m->type));
		id(f, t, "parent", m->parent); COMMA;
		id(f, t, "of", m->type == ROLEMAP_ALL || m->type == ROLEMAP_INSERT ? NULL :
		    m->type == ROLEMAP_NOEXPORT ? (const void *)m->f :
		    m->type == ROLEMAP_DELETE || m->type == ROLEMAP_UPDATE ?
		    (const void *)m->u : (const void *)m->s);
		fputs(", \"rq\": [", f);
		k = 0;
		TAILQ_FOREACH(rr, &m->rq, entries) {
			fputs(k++ ? ", {" : "{", f);
			id(f, t, "role", rr->role);
			fprintf(f, ", \"parent\": %d, ", rr->parent == m);
			dpos(f, &rr->pos);
			fputc('}', f);
		}
		fputs("]}", f);
	}
	fputs("], ", f);
	if (s->ins != NULL) {
		fputs("\"ins\": {", f);
		id(f, t, "rolemap", s->ins->rolemap); COMMA;
		id(f, t, "parent", s->ins->parent); COMMA;
		dpos(f, &s->ins->pos);
		fputs("}, ", f);
	}
	dpos(f, &s->pos);
	fputc('}', f);
}

static void
mkids(struct ids *t, const struct config *cfg, const char *pre)
{
	const struct strct *s;
	const struct field *fd;
	const struct search *sr;
	const struct alias *a;
	const struct update *up;
	const struct unique *u;
	const struct rolemap *m;
	const struct enm *e;
	const struct eitem *ei;
	const struct bitf *b;
	const struct bitidx *bi;
	const struct role *r;
	int i, j;

	i = 0;
	TAILQ_FOREACH(s, &cfg->sq, entries) {
		reg(t, s, "%sS%d", pre, i);
		j = 0;
		TAILQ_FOREACH(fd, &s->fq, entries)
			reg(t, fd, "%sS%d.f%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(sr, &s->sq, entries)
			reg(t, sr, "%sS%d.q%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(a, &s->aq, entries)
			reg(t, a, "%sS%d.a%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(up, &s->uq, entries)
			reg(t, up, "%sS%d.u%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(up, &s->dq, entries)
			reg(t, up, "%sS%d.d%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(u, &s->nq, entries)
			reg(t, u, "%sS%d.n%d", pre, i, j++);
		j = 0;
		TAILQ_FOREACH(m, &s->rq, entries)
			reg(t, m, "%sS%d.r%d", pre, i, j++);
		reg(t, s->ins, "%sS%d.i", pre, i);
		i++;
	}
	i = 0;
	TAILQ_FOREACH(e, &cfg->eq, entries) {
		reg(t, e, "%sE%d", pre, i);
		j = 0;
		TAILQ_FOREACH(ei, &e->eq, entries)
			reg(t, ei, "%sE%d.i%d", pre, i, j++);
		i++;
	}
	i = 0;
	TAILQ_FOREACH(b, &cfg->bq, entries) {
		reg(t, b, "%sB%d", pre, i);
		j = 0;
		TAILQ_FOREACH(bi, &b->bq, entries)
			reg(t, bi, "%sB%d.i%d", pre, i, j++);
		i++;
	}
	i = 0;
	TAILQ_FOREACH(r, &cfg->arq, allentries)
		reg(t, r, "%sR%d", pre, i++);
}

static void
dump(FILE *f, const struct config *cfg)
{
	struct ids t;
	const struct strct *s;
	const struct enm *e;
	const struct eitem *ei;
	const struct bitf *b;
	const struct bitidx *bi;
	const struct role *r, *rr;
	const struct msg *m;
	size_t i;
	int n, k;

	memset(&t, 0, sizeof(t));
	mkids(&t, cfg, "");
	qsort(t.m, t.n, sizeof(struct idmap), idcmp);
	fprintf(f, "{\"pass\": %d, \"xflags\": %u, \"langs\": [",
	    !!(cfg->flags & CONFIG_HAS_PASS), cfg->flags & ~CONFIG_HAS_PASS);
	for (i = 0; i < cfg->langsz; i++) {
		fputs(i ? ", {" : "{", f);
		str(f, "lang", cfg->langs[i]);
		fputc('}', f);
	}
	fputs("], \"fnames\": [", f);
	for (i = 0; i < cfg->fnamesz; i++) {
		fputs(i ? ", {" : "{", f);
		str(f, "fname", cfg->fnames[i]);
		fputc('}', f);
	}
	fputs("], \"sq\": [", f);
	n = 0;
	TAILQ_FOREACH(s, &cfg->sq, entries) {
		if (n++)
			COMMA;
		dstrct(f, &t, cfg, s);
	}
	fputs("], \"eq\": [", f);
	n = 0;
	TAILQ_FOREACH(e, &cfg->eq, entries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, &t, "id", e); COMMA;
		str(f, "name", e->name); COMMA;
		str(f, "doc", e->doc); COMMA;
		dlabels(f, "labels_null", &e->labels_null);
		fputs(", \"eq\": [", f);
		k = 0;
		TAILQ_FOREACH(ei, &e->eq, entries) {
			fputs(k++ ? ", {" : "{", f);
			id(f, &t, "id", ei); COMMA;
			str(f, "name", ei->name); COMMA;
			str(f, "doc", ei->doc); COMMA;
			fprintf(f, "\"value\": \"%" PRId64 "\", \"auto\": %d, \"xflags\": %u, ",
			    ei->value, !!(ei->flags & EITEM_AUTO), ei->flags & ~EITEM_AUTO);
			id(f, &t, "parent", ei->parent); COMMA;
			dlabels(f, "labels", &ei->labels); COMMA;
			dpos(f, &ei->pos);
			fputc('}', f);
		}
		fputs("], ", f);
		dpos(f, &e->pos);
		fputc('}', f);
	}
	fputs("], \"bq\": [", f);
	n = 0;
	TAILQ_FOREACH(b, &cfg->bq, entries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, &t, "id", b); COMMA;
		str(f, "name", b->name); COMMA;
		str(f, "doc", b->doc); COMMA;
		dlabels(f, "labels_null", &b->labels_null); COMMA;
		dlabels(f, "labels_unset", &b->labels_unset);
		fputs(", \"bq\": [", f);
		k = 0;
		TAILQ_FOREACH(bi, &b->bq, entries) {
			fputs(k++ ? ", {" : "{", f);
			id(f, &t, "id", bi); COMMA;
			str(f, "name", bi->name); COMMA;
			str(f, "doc", bi->doc); COMMA;
			fprintf(f, "\"value\": \"%" PRId64 "\", ", bi->value);
			id(f, &t, "parent", bi->parent); COMMA;
			dlabels(f, "labels", &bi->labels); COMMA;
			dpos(f, &bi->pos);
			fputc('}', f);
		}
		fputs("], ", f);
		dpos(f, &b->pos);
		fputc('}', f);
	}
	fputs("], \"rq\": [", f);
	n = 0;
	TAILQ_FOREACH(r, &cfg->rq, entries)
		fprintf(f, "%s\"%s\"", n++ ? ", " : "", idof(&t, r));
	fputs("], \"arq\": [", f);
	n = 0;
	TAILQ_FOREACH(r, &cfg->arq, allentries) {
		fputs(n++ ? ", {" : "{", f);
		id(f, &t, "id", r); COMMA;
		str(f, "name", r->name); COMMA;
		str(f, "doc", r->doc); COMMA;
		id(f, &t, "parent", r->parent);
		fputs(", \"subrq\": [", f);
		k = 0;
		TAILQ_FOREACH(rr, &r->subrq, entries)
			fprintf(f, "%s\"%s\"", k++ ? ", " : "", idof(&t, rr));
		fputs("], ", f);
		dpos(f, &r->pos);
		fputc('}', f);
	}
	fputs("], \"mq\": [", f);
	n = 0;
	TAILQ_FOREACH(m, &cfg->mq, entries) {
		fprintf(f, "%s{\"type\": \"%s\", \"er\": %d, \"line\": %zu, \"column\": %zu, ",
		    n++ ? ", " : "", NAME(n_msg, m->type), m->er, m->line, m->column);
		str(f, "fname", m->fname); COMMA;
		str(f, "buf", m->buf);
		fputc('}', f);
	}
	fputs("]}\n", f);
	free(t.m);
}

/* ------------------------------------------------ queues of differences */

static void
dumpdiff(FILE *f, const struct config *from, const struct config *into,
	const struct diffq *q)
{
	struct ids t;
	const struct diff *d;
	const void *a, *b;

	memset(&t, 0, sizeof(t));
	mkids(&t, from, "<");
	if (into != from)
		mkids(&t, into, ">");
	qsort(t.m, t.n, sizeof(struct idmap), idcmp);
	TAILQ_FOREACH(d, q, entries) {
		a = b = NULL;
		switch (d->type) {
		case DIFF_ADD_BITF: case DIFF_DEL_BITF:
			a = d->bitf;
			break;
		case DIFF_ADD_BITIDX: case DIFF_DEL_BITIDX:
			a = d->bitidx;
			break;
		case DIFF_ADD_EITEM: case DIFF_DEL_EITEM:
			a = d->eitem;
			break;
		case DIFF_ADD_ENM: case DIFF_DEL_ENM:
			a = d->enm;
			break;
		case DIFF_ADD_FIELD: case DIFF_DEL_FIELD:
			a = d->field;
			break;
		case DIFF_ADD_INSERT: case DIFF_DEL_INSERT:
		case DIFF_ADD_STRCT: case DIFF_DEL_STRCT:
			a = d->strct;
			break;
		case DIFF_ADD_ROLE: case DIFF_DEL_ROLE:
			a = d->role;
			break;
		case DIFF_ADD_ROLES: case DIFF_DEL_ROLES:
		case DIFF_MOD_ROLES: case DIFF_SAME_ROLES:
			break;
		case DIFF_ADD_SEARCH: case DIFF_DEL_SEARCH:
			a = d->search;
			break;
		case DIFF_ADD_UNIQUE: case DIFF_DEL_UNIQUE:
			a = d->unique;
			break;
		case DIFF_ADD_UPDATE: case DIFF_DEL_UPDATE:
			a = d->update;
			break;
		case DIFF_MOD_BITF: case DIFF_MOD_BITF_COMMENT:
		case DIFF_MOD_BITF_LABELS: case DIFF_SAME_BITF:
			a = d->bitf_pair.from, b = d->bitf_pair.into;
			break;
		case DIFF_MOD_BITIDX: case DIFF_MOD_BITIDX_COMMENT:
		case DIFF_MOD_BITIDX_LABELS: case DIFF_MOD_BITIDX_VALUE:
		case DIFF_SAME_BITIDX:
			a = d->bitidx_pair.from, b = d->bitidx_pair.into;
			break;
		case DIFF_MOD_EITEM: case DIFF_MOD_EITEM_COMMENT:
		case DIFF_MOD_EITEM_LABELS: case DIFF_MOD_EITEM_VALUE:
		case DIFF_SAME_EITEM:
			a = d->eitem_pair.from, b = d->eitem_pair.into;
			break;
		case DIFF_MOD_ENM: case DIFF_MOD_ENM_COMMENT:
		case DIFF_MOD_ENM_LABELS: case DIFF_SAME_ENM:
			a = d->enm_pair.from, b = d->enm_pair.into;
			break;
		case DIFF_MOD_FIELD: case DIFF_MOD_FIELD_ACTIONS:
		case DIFF_MOD_FIELD_BITF: case DIFF_MOD_FIELD_COMMENT:
		case DIFF_MOD_FIELD_DEF: case DIFF_MOD_FIELD_ENM:
		case DIFF_MOD_FIELD_FLAGS: case DIFF_MOD_FIELD_REFERENCE:
		case DIFF_MOD_FIELD_ROLEMAP: case DIFF_MOD_FIELD_TYPE:
		case DIFF_MOD_FIELD_VALIDS: case DIFF_SAME_FIELD:
			a = d->field_pair.from, b = d->field_pair.into;
			break;
		case DIFF_MOD_ROLE: case DIFF_MOD_ROLE_CHILDREN:
		case DIFF_MOD_ROLE_COMMENT: case DIFF_MOD_ROLE_PARENT:
		case DIFF_SAME_ROLE:
			a = d->role_pair.from, b = d->role_pair.into;
			break;
		case DIFF_MOD_INSERT: case DIFF_MOD_INSERT_PARAMS:
		case DIFF_MOD_INSERT_ROLEMAP: case DIFF_SAME_INSERT:
		case DIFF_MOD_STRCT: case DIFF_MOD_STRCT_COMMENT:
		case DIFF_SAME_STRCT:
			a = d->strct_pair.from, b = d->strct_pair.into;
			break;
		case DIFF_MOD_SEARCH: case DIFF_MOD_SEARCH_AGGR:
		case DIFF_MOD_SEARCH_COMMENT: case DIFF_MOD_SEARCH_DISTINCT:
		case DIFF_MOD_SEARCH_GROUP: case DIFF_MOD_SEARCH_LIMIT:
		case DIFF_MOD_SEARCH_OFFSET: case DIFF_MOD_SEARCH_ORDER:
		case DIFF_MOD_SEARCH_PARAMS: case DIFF_MOD_SEARCH_ROLEMAP:
		case DIFF_SAME_SEARCH:
			a = d->search_pair.from, b = d->search_pair.into;
			break;
		case DIFF_MOD_UPDATE: case DIFF_MOD_UPDATE_COMMENT:
		case DIFF_MOD_UPDATE_FLAGS: case DIFF_MOD_UPDATE_PARAMS:
		case DIFF_MOD_UPDATE_ROLEMAP: case DIFF_SAME_UPDATE:
			a = d->update_pair.from, b = d->update_pair.into;
			break;
		default:
			fprintf(f, "unknown %d\n", d->type);
			continue;
		}
		fprintf(f, "%s %s %s\n", NAME(n_diff, d->type), idof(&t, a), idof(&t, b));
	}
	free(t.m);
}

static void
dumpaudit(FILE *f, const struct config *cfg, const struct auditq *q)
{
	struct ids t;
	const struct audit *a;
	size_t i;

	memset(&t, 0, sizeof(t));
	mkids(&t, cfg, "");
	qsort(t.m, t.n, sizeof(struct idmap), idcmp);
	TAILQ_FOREACH(a, q, entries)
		switch (a->type) {
		case AUDIT_INSERT:
			fprintf(f, "insert %s\n", idof(&t, a->st));
			break;
		case AUDIT_UPDATE:
			fprintf(f, "update %s\n", idof(&t, a->up));
			break;
		case AUDIT_QUERY:
			fprintf(f, "query %s\n", idof(&t, a->sr));
			break;
		case AUDIT_REACHABLE:
			fprintf(f, "reach %s %d\n", idof(&t, a->ar.st), !!a->ar.exported);
			for (i = 0; i < a->ar.srsz; i++)
				fprintf(f, " by %s %s %d\n", idof(&t, a->ar.srs[i].sr),
				    a->ar.srs[i].path == NULL ? "-" : a->ar.srs[i].path,
				    !!a->ar.srs[i].exported);
			for (i = 0; i < a->ar.fdsz; i++)
				fprintf(f, " field %s %d\n", idof(&t, a->ar.fds[i].fd),
				    !!a->ar.fds[i].exported);
			break;
		default:
			fprintf(f, "unknown %d\n", a->type);
			break;
		}
	free(t.m);
}

/* ---------------------------------------------------------- operations */

static int
xliff(const char *kind, int flags, struct config *cfg, const char *const *paths,
	size_t n, FILE *f, FILE *msgs)
{
	struct ort_lang_xliff args;
	struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	FILE *in[8];
	size_t i;
	int rc;

	memset(&args, 0, sizeof(args));
	for (i = 0; i < n; i++)
		if ((in[i] = fopen(paths[i], "r")) == NULL)
			die(paths[i]);
	args.in = n ? in : NULL;
	args.fnames = n ? paths : NULL;
	args.insz = n;
	args.flags = flags;
	rc = strcmp(kind, "xextract") == 0 ? ort_lang_xliff_extract(&args, cfg, f, &mq) :
	    strcmp(kind, "xupdate") == 0 ? ort_lang_xliff_update(&args, cfg, f, &mq) :
	    ort_lang_xliff_join(&args, cfg, f, &mq);
	for (i = 0; i < n; i++)
		fclose(in[i]);
	/* These name the paths, hence aren't compared: only their number is. */
	(void)msgs;
	ort_msgq_free(&mq);
	return rc;
}

static int
op(const char *kind, int c, char **av, int ac, FILE *f)
{
	struct config *cfg = slots[c].cfg;
	int rc = -9, fl = ac > 0 ? atoi(av[0]) : 0;

	if (strcmp(kind, "dump") == 0) {
		dump(f, cfg);
		rc = 1;
	} else if (strcmp(kind, "msgs") == 0) {
		rc = ort_write_msg_file(f, &cfg->mq);
	} else if (strcmp(kind, "ort") == 0) {
		rc = ort_write_file(f, cfg);
	} else if (strcmp(kind, "json") == 0) {
		struct ort_lang_json a;
		memset(&a, 0, sizeof(a));
		a.flags = fl;
		rc = ort_lang_json(&a, cfg, f);
	} else if (strcmp(kind, "sql") == 0) {
		struct ort_lang_sql a;
		memset(&a, 0, sizeof(a));
		rc = ort_lang_sql(fl ? &a : NULL, cfg, f);
	} else if (kind[0] == 'c') {
		struct ort_lang_c a;
		memset(&a, 0, sizeof(a));
		a.flags = fl;
		if (strcmp(kind, "cheader") == 0) {
			a.guard = ac > 1 ? av[1] : NULL;
			rc = ort_lang_c_header(&a, cfg, f);
		} else if (strcmp(kind, "csource") == 0) {
			a.header = ac > 1 ? av[1] : NULL;
			a.includes = ac > 2 ? atoi(av[2]) : 0;
			a.ext_jsmn = jsmn_src;
			rc = ort_lang_c_source(&a, cfg, f);
		} else if (strcmp(kind, "cman") == 0)
			rc = ort_lang_c_manpage(&a, cfg, f);
	} else if (strcmp(kind, "js") == 0) {
		struct ort_lang_js a;
		memset(&a, 0, sizeof(a));
		a.flags = fl;
		a.ns = ac > 1 ? av[1] : NULL;
		a.ext_privMethods = js_priv;
		rc = ort_lang_javascript(cfg, &a, f);
	} else if (strcmp(kind, "nodejs") == 0) {
		struct ort_lang_nodejs a;
		memset(&a, 0, sizeof(a));
		a.flags = fl;
		rc = ort_lang_nodejs(&a, cfg, f);
	} else if (strcmp(kind, "rust") == 0) {
		struct ort_lang_rust a;
		memset(&a, 0, sizeof(a));
		rc = ort_lang_rust(&a, cfg, f);
	} else if (kind[0] == 'x') {
		rc = xliff(kind, fl, cfg, (const char *const *)av + 1, ac > 0 ? ac - 1 : 0, f, NULL);
	} else if (strcmp(kind, "diff") == 0 || strcmp(kind, "diffq") == 0 ||
	    strcmp(kind, "sqldiff") == 0) {
		struct config *into = slots[fl].cfg;
		struct diffq *q = ort_diff(cfg, into);
		const char *n[1] = { "from.ort" }, *m[1] = { "into.ort" };

		if (q == NULL)
			return 0;
		if (kind[0] == 's') {
			struct ort_lang_sql a;
			struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
			memset(&a, 0, sizeof(a));
			rc = ort_lang_diff_sql(&a, q, ac > 1 && atoi(av[1]), f, &mq);
			ort_write_msg_file(f, &mq);
			ort_msgq_free(&mq);
		} else if (strcmp(kind, "diff") == 0)
			rc = ort_write_diff_file(f, q, m, 1, n, 1);
		else {
			dumpdiff(f, cfg, into, q);
			rc = 1;
		}
		ort_diffq_free(q);
	} else if (strcmp(kind, "audit") == 0) {
		const struct role *r;
		struct auditq *q;

		rc = -2;
		TAILQ_FOREACH(r, &cfg->arq, allentries)
			if (ac > 0 && strcasecmp(r->name, av[0]) == 0) {
				if ((q = ort_audit(r, cfg)) == NULL)
					return 0;
				dumpaudit(f, cfg, q);
				ort_auditq_free(q);
				rc = 1;
				break;
			}
	} else
		die(kind);
	return rc;
}

static void
run(char **w, int n, FILE *out)
{
	int c = n > 1 ? atoi(w[1]) : 0, rc;
	long a, b;

	if (c < 0 || c >= MAXC)
		die("configuration");
	if (strcmp(w[0], "alloc") == 0) {
		watch_on(c);
		slots[c].cfg = ort_config_alloc();
		watch_off();
		slots[c].closed = slots[c].failed = 0;
		if (slots[c].cfg == NULL)
			die("alloc");
	} else if (strcmp(w[0], "parse") == 0 && n == 5) {
		FILE *f;
		struct dribble d;
		char *buf = NULL;

		if (slots[c].failed)
			return;
		memset(&d, 0, sizeof(d));
		if (strcmp(w[2], "mem") == 0) {
			buf = slurp(w[3], &d.sz);
			f = d.sz ? fmemopen(buf, d.sz, "r") : fopen("/dev/null", "r");
		} else if (strcmp(w[2], "dribble") == 0) {
			cookie_io_functions_t io = { .read = dribble_read };
			d.buf = buf = slurp(w[3], &d.sz);
			f = fopencookie(&d, "r", io);
		} else {
			f = fopen(w[3], "r");
			if (f != NULL && strcmp(w[2], "unbuf") == 0)
				setvbuf(f, NULL, _IONBF, 0);
		}
		if (f == NULL)
			die(w[3]);
		watch_on(c);
		rc = ort_parse_file(slots[c].cfg, f, w[4]);
		watch_off();
		slots[c].failed = rc == 0;
		fclose(f);
		free(buf);
		/* The name is the caller's again. */
		memset(w[4], '!', strlen(w[4]));
		say("parse %d %d\n", c, rc);
	} else if (strcmp(w[0], "close") == 0) {
		if (slots[c].failed)
			return;
		watch_on(c);
		rc = ort_parse_close(slots[c].cfg);
		watch_off();
		slots[c].closed = rc;
		say("close %d %d\n", c, rc);
		if (rc)
			watch_fix(c);
	} else if (strcmp(w[0], "free") == 0) {
		watch_freeing(c);
		ort_config_free(slots[c].cfg);
		watch_freed(c);
		slots[c].cfg = NULL;
		slots[c].closed = 0;
	} else if (strcmp(w[0], "nulls") == 0) {
		ort_config_free(NULL);
		ort_diffq_free(NULL);
		ort_auditq_free(NULL);
		ort_msgq_free(NULL);
		say("nulls %d\n", ort_write_msg_file(out, NULL));
	} else if (strcmp(w[0], "op") == 0 && n >= 4) {
		c = atoi(w[2]);
		int mut = strcmp(w[3], "xjoin") == 0;

		fflush(out);
		a = ftell(out);
		if (mut)
			watch_on(c);
		rc = op(w[3], c, w + 4, n - 4, out);
		if (mut)
			watch_off();
		if (ferror(out) || fflush(out) == EOF)
			say("BADSTREAM %s\n", w[1]);
		b = ftell(out);
		say("op %s %d %d %ld %ld\n", w[1], rc, curthr, a, b);
		if (mut && slots[c].closed)
			watch_fix(c);
		else if (slots[c].closed && curthr < 0)
			watch_check(w[1], c);
	} else
		die(w[0]);
}

/* Have the C library allocate what it keeps for itself. */
static void
warmup(void)
{
	struct tm tm;
	time_t t = 0;
	char *s;

	memset(&tm, 0, sizeof(tm));
	tm.tm_year = 100;
	(void)mktime(&tm);
	(void)localtime(&t);
	if (asprintf(&s, "%.17g %d", 1.5, 3) != -1)
		free(s);
}

struct	thr {
	int		 k;
	char		**lines;
	size_t		 n;
	pthread_t	 t;
	pthread_barrier_t *bar;
	FILE		*out;
};

static int
words(char *l, char **w, int max)
{
	int n = 0;
	char *s, *save = NULL;

	for (s = strtok_r(l, " \n", &save); s != NULL && n < max; s = strtok_r(NULL, " \n", &save))
		w[n++] = s;
	return n;
}

static void *
thr_main(void *arg)
{
	struct thr *t = arg;
	size_t i;
	char *w[32];
	int n;

	curthr = t->k;
	pthread_barrier_wait(t->bar);
	for (i = 0; i < t->n; i++)
		if ((n = words(t->lines[i], w, 32)) > 0)
			run(w, n, t->out);
	return NULL;
}

int
main(int argc, char **argv)
{
	char *line = NULL, *w[32], path[4096];
	size_t sz = 0, i;
	struct thr thr[MAXT];
	pthread_barrier_t bar;
	FILE *out;
	static char obuf[MAXT + 1][BUFSIZ];
	int n, nthr = 0, k;

	if (argc != 4)
		die("usage: libdrv outdir jsmn.c ortPrivate.ts");
	outdir = argv[1];
	jsmn_src = slurp(argv[2], &sz);
	js_priv = slurp(argv[3], &sz);
	sz = 0;
	warmup();
	watch_init();
	memset(thr, 0, sizeof(thr));
	snprintf(path, sizeof(path), "%s/out.m", outdir);
	if ((out = fopen(path, "w")) == NULL)
		die(path);
	setvbuf(out, obuf[MAXT], _IOFBF, BUFSIZ);
	while (getline(&line, &sz, stdin) != -1) {
		if (line[0] == '@') {
			k = atoi(line + 1);
			if (k < 0 || k >= nthr || strchr(line, ' ') == NULL)
				die(line);
			thr[k].lines = realloc(thr[k].lines, (thr[k].n + 1) * sizeof(char *));
			if (thr[k].lines == NULL)
				die("realloc");
			thr[k].lines[thr[k].n++] = strdup(strchr(line, ' ') + 1);
			continue;
		}
		if ((n = words(line, w, 32)) == 0)
			continue;
		if (strcmp(w[0], "par") == 0 && n == 2) {
			nthr = atoi(w[1]);
			if (nthr < 1 || nthr > MAXT)
				die("par");
		} else if (strcmp(w[0], "join") == 0) {
			pthread_barrier_init(&bar, NULL, nthr);
			for (k = 0; k < nthr; k++) {
				thr[k].k = k;
				thr[k].bar = &bar;
				if (thr[k].out == NULL) {
					snprintf(path, sizeof(path), "%s/out.%d", outdir, k);
					if ((thr[k].out = fopen(path, "w")) == NULL)
						die(path);
					setvbuf(thr[k].out, obuf[k], _IOFBF, BUFSIZ);
				}
				pthread_create(&thr[k].t, NULL, thr_main, &thr[k]);
			}
			for (k = 0; k < nthr; k++) {
				pthread_join(thr[k].t, NULL);
				for (i = 0; i < thr[k].n; i++)
					free(thr[k].lines[i]);
				free(thr[k].lines);
				thr[k].lines = NULL;
				thr[k].n = 0;
			}
			pthread_barrier_destroy(&bar);
			nthr = 0;
			for (k = 0; k < MAXC; k++)
				if (slots[k].closed)
					watch_check("join", k);
		} else
			run(w, n, out);
	}
	fclose(out);
	for (k = 0; k < MAXT; k++)
		if (thr[k].out != NULL)
			fclose(thr[k].out);
	free(line);
	free(js_priv);
	free(jsmn_src);
	for (k = 0; k < MAXC; k++)
		if (slots[k].cfg != NULL)
			say("unfreed %d\n", k);
	say("done\n");
	return 0;
}
