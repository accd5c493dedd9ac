#define _GNU_SOURCE
#include <sys/types.h>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <math.h>
#include <sqlite3.h>
#include "prelude.h"
#include "sqlbox.h"
#include "kcgi.h"
#include "kcgijson.h"

/* Misuse by the generated code is reported on stderr as "SHIM: ..." */
static void misuse(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fputs("SHIM: ", stderr);
	vfprintf(stderr, fmt, ap);
	fputc('\n', stderr);
	va_end(ap);
}

struct sqlbox_role_hier { size_t sz; int *parent; int *sink; int start; unsigned char *stmts; size_t *srcs; };
#define MAXSTMT 4096
struct open_stmt { sqlite3_stmt *st; struct sqlbox_parmset set; size_t which; int multi; int stepped; int done; };
struct sqlbox { sqlite3 *db; char *fname; char **stmts; size_t stmtsz; struct sqlbox_role_hier *h; size_t role;
	struct open_stmt open[64]; size_t opensz; int dead; int trans; size_t transid; };
int shim_denied, shim_executed;

struct sqlbox_role_hier *sqlbox_role_hier_alloc(size_t sz) {
	struct sqlbox_role_hier *h = calloc(1, sizeof(*h));
	size_t i;
	h->sz = sz;
	h->parent = calloc(sz + 1, sizeof(int));
	h->sink = calloc(sz + 1, sizeof(int));
	h->stmts = calloc((sz + 1) * MAXSTMT, 1);
	h->srcs = calloc(sz + 1, sizeof(size_t));
	h->start = -1;
	for (i = 0; i < sz; i++) h->parent[i] = -1;
	return h;
}
void sqlbox_role_hier_free(struct sqlbox_role_hier *h) {
	if (h == NULL) return;
	free(h->parent); free(h->sink); free(h->stmts); free(h->srcs); free(h);
}
int sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t p, size_t c) {
	if (p >= h->sz || c >= h->sz || p == c || h->parent[c] != -1) {
		misuse("role_hier_child %zu %zu", p, c); return 0; }
	h->parent[c] = (int)p;
	return 1;
}
int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r) {
	if (r >= h->sz) { misuse("role_hier_sink"); return 0; }
	h->sink[r] = 1; return 1;
}
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r) {
	if (r >= h->sz) { misuse("role_hier_start"); return 0; }
	h->start = (int)r; return 1;
}
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t s) {
	if (r >= h->sz) { misuse("role_hier_src"); return 0; }
	h->srcs[r] = s + 1; return 1;
}
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t s) {
	if (r >= h->sz || s >= MAXSTMT) { misuse("role_hier_stmt %zu %zu of %zu", r, s, h->sz); return 0; }
	h->stmts[r * MAXSTMT + s] = 1; return 1;
}
int sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, struct sqlbox_roles *r, size_t def) {
	struct sqlbox_role_hier *n = sqlbox_role_hier_alloc(h->sz);
	memcpy(n->parent, h->parent, h->sz * sizeof(int));
	memcpy(n->sink, h->sink, h->sz * sizeof(int));
	memcpy(n->stmts, h->stmts, h->sz * MAXSTMT);
	memcpy(n->srcs, h->srcs, h->sz * sizeof(size_t));
	n->start = h->start;
	r->h = n; r->defrole = def;
	return 1;
}
void sqlbox_role_hier_gen_free(struct sqlbox_roles *r) {
	if (r == NULL) return;
	sqlbox_role_hier_free(r->h); r->h = NULL;
}
static int allowed(struct sqlbox *b, size_t stmt) {
	int r, n = 0;
	if (b->h == NULL) return 1;
	for (r = (int)b->role; r != -1 && n < 1000; r = b->h->parent[r], n++)
		if (b->h->stmts[(size_t)r * MAXSTMT + stmt]) return 1;
	return 0;
}

struct sqlbox *sqlbox_alloc(struct sqlbox_cfg *c) {
	struct sqlbox *b = calloc(1, sizeof(*b));
	size_t i;
	if (c->srcs.srcsz != 1) misuse("sources");
	b->fname = strdup(c->srcs.srcs[0].fname);
	b->stmtsz = c->stmts.stmtsz;
	b->stmts = calloc(b->stmtsz + 1, sizeof(char *));
	for (i = 0; i < b->stmtsz; i++) {
		if (c->stmts.stmts[i].stmt == NULL) { misuse("statement %zu isn't defined", i); continue; }
		b->stmts[i] = strdup(c->stmts.stmts[i].stmt);
	}
	if (c->roles.h != NULL) {
		struct sqlbox_roles r = { NULL, 0 };
		sqlbox_role_hier_gen(c->roles.h, &r, c->roles.defrole);
		b->h = r.h; b->role = c->roles.defrole;
	}
	return b;
}
void sqlbox_free(struct sqlbox *b) {
	size_t i;
	if (b == NULL) return;
	if (b->opensz) misuse("%zu statements still open", b->opensz);
	while (b->opensz) sqlbox_finalise(b, 0);
	if (b->db) sqlite3_close(b->db);
	for (i = 0; i < b->stmtsz; i++) free(b->stmts[i]);
	free(b->stmts); free(b->fname); sqlbox_role_hier_free(b->h); free(b);
}
int sqlbox_open_async(struct sqlbox *b, size_t src) {
	sqlite3_stmt *st;
	size_t i;
	if (b->h != NULL && b->h->srcs[b->role] != src + 1) { misuse("source isn't allowed for role"); return 0; }
	if (sqlite3_open_v2(b->fname, &b->db, SQLITE_OPEN_READWRITE, NULL) != SQLITE_OK) {
		sqlite3_close(b->db); b->db = NULL; return 0; }
	sqlite3_busy_timeout(b->db, 2000);
	sqlite3_exec(b->db, "PRAGMA foreign_keys=ON; PRAGMA synchronous=OFF;", NULL, NULL, NULL);
	sqlite3_db_config(b->db, SQLITE_DBCONFIG_DQS_DML, 0, NULL);
	for (i = 0; i < b->stmtsz; i++) {
		if (sqlite3_prepare_v2(b->db, b->stmts[i], -1, &st, NULL) != SQLITE_OK)
			misuse("statement can't be prepared: %s: %s", sqlite3_errmsg(b->db), b->stmts[i]);
		sqlite3_finalize(st);
	}
	return 1;
}
int sqlbox_role(struct sqlbox *b, size_t r) {
	int p;
	if (b->h == NULL || r >= b->h->sz) { misuse("role %zu", r); return 0; }
	if (r == b->role) return 1;
	if (b->h->sink[b->role]) { shim_denied++; return 0; }
	if (b->h->sink[r] || (int)b->role == b->h->start) { b->role = r; return 1; }
	for (p = b->h->parent[b->role]; p != -1; p = b->h->parent[p])
		if ((size_t)p == r) { b->role = r; return 1; }
	shim_denied++;
	return 0;
}
static sqlite3_stmt *prep(struct sqlbox *b, size_t src, size_t stmt, size_t psz, const struct sqlbox_parm *ps) {
	sqlite3_stmt *st;
	size_t i;
	int rc;
	if (src != 0 || stmt >= b->stmtsz) { misuse("statement index %zu", stmt); return NULL; }
	if (!allowed(b, stmt)) { shim_denied++; fprintf(stderr, "DENIED role %zu: %s\n", b->role, b->stmts[stmt]);
		return NULL; }
	if (sqlite3_prepare_v2(b->db, b->stmts[stmt], -1, &st, NULL) != SQLITE_OK) {
		misuse("prepare: %s: %s", sqlite3_errmsg(b->db), b->stmts[stmt]);
		return NULL;
	}
	if ((size_t)sqlite3_bind_parameter_count(st) != psz)
		misuse("%zu parameters given where the statement has %d: %s", psz,
		    sqlite3_bind_parameter_count(st), b->stmts[stmt]);
	for (i = 0; i < psz; i++) {
		switch (ps[i].type) {
		case SQLBOX_PARM_BLOB:
			rc = ps[i].sz == 0 ? sqlite3_bind_zeroblob(st, (int)i + 1, 0) :
			    sqlite3_bind_blob(st, (int)i + 1, ps[i].bparm, (int)ps[i].sz, SQLITE_TRANSIENT);
			break;
		case SQLBOX_PARM_FLOAT: rc = sqlite3_bind_double(st, (int)i + 1, ps[i].fparm); break;
		case SQLBOX_PARM_INT: rc = sqlite3_bind_int64(st, (int)i + 1, ps[i].iparm); break;
		case SQLBOX_PARM_NULL: rc = sqlite3_bind_null(st, (int)i + 1); break;
		case SQLBOX_PARM_STRING:
			if (ps[i].sparm == NULL) { misuse("NULL string"); rc = SQLITE_OK; break; }
			rc = sqlite3_bind_text(st, (int)i + 1, ps[i].sparm, -1, SQLITE_TRANSIENT);
			break;
		default: misuse("parameter %zu has no type: %s", i, b->stmts[stmt]); rc = SQLITE_OK;
		}
		if (rc != SQLITE_OK) misuse("bind %zu: %s: %s", i, sqlite3_errmsg(b->db), b->stmts[stmt]);
	}
	shim_executed++;
	return st;
}
int sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t stmt, size_t psz,
    const struct sqlbox_parm *ps, unsigned long flags) {
	sqlite3_stmt *st;
	struct open_stmt *o;
	if (b->dead || (st = prep(b, src, stmt, psz, ps)) == NULL) { b->dead = 1; return 0; }
	if (b->opensz == 64) { misuse("too many open statements"); sqlite3_finalize(st); return 0; }
	o = &b->open[b->opensz++];
	memset(o, 0, sizeof(*o));
	o->st = st; o->which = stmt; o->multi = (flags & SQLBOX_STMT_MULTI) != 0;
	return 1;
}
static void clearset(struct sqlbox_parmset *s) {
	size_t i;
	for (i = 0; i < s->psz; i++)
		if (s->ps[i].type == SQLBOX_PARM_STRING) free((void *)s->ps[i].sparm);
		else if (s->ps[i].type == SQLBOX_PARM_BLOB) free((void *)s->ps[i].bparm);
	free(s->ps); s->ps = NULL; s->psz = 0;
}
const struct sqlbox_parmset *sqlbox_step(struct sqlbox *b, size_t id) {
	struct open_stmt *o;
	int rc, i, n;
	if (b->dead || id != 0 || b->opensz == 0) { misuse("step"); return NULL; }
	o = &b->open[b->opensz - 1];
	clearset(&o->set);
	if (o->done) { misuse("step after completion"); return NULL; }
	rc = sqlite3_step(o->st);
	if (rc == SQLITE_DONE) { o->done = 1; return &o->set; }
	if (rc != SQLITE_ROW) { misuse("step: %s", sqlite3_errmsg(b->db)); return NULL; }
	n = sqlite3_column_count(o->st);
	/* Exact allocation, so that reading past the columns is seen. */
	o->set.ps = calloc((size_t)n, sizeof(struct sqlbox_parm)); o->set.psz = (size_t)n;
	for (i = 0; i < n; i++) {
		struct sqlbox_parm *p = &o->set.ps[i];
		switch (sqlite3_column_type(o->st, i)) {
		case SQLITE_INTEGER: p->type = SQLBOX_PARM_INT; p->iparm = sqlite3_column_int64(o->st, i); break;
		case SQLITE_FLOAT: p->type = SQLBOX_PARM_FLOAT; p->fparm = sqlite3_column_double(o->st, i); break;
		case SQLITE_TEXT: p->type = SQLBOX_PARM_STRING; p->sz = (size_t)sqlite3_column_bytes(o->st, i) + 1;
			p->sparm = strdup((const char *)sqlite3_column_text(o->st, i)); break;
		case SQLITE_BLOB: { void *m; p->type = SQLBOX_PARM_BLOB; p->sz = (size_t)sqlite3_column_bytes(o->st, i);
			m = malloc(p->sz ? p->sz : 1); if (p->sz) memcpy(m, sqlite3_column_blob(o->st, i), p->sz);
			p->bparm = m; break; }
		default: p->type = SQLBOX_PARM_NULL;
		}
	}
	return &o->set;
}
int sqlbox_finalise(struct sqlbox *b, size_t id) {
	struct open_stmt *o;
	if (id != 0 || b->opensz == 0) { misuse("finalise"); return 0; }
	o = &b->open[--b->opensz];
	clearset(&o->set);
	sqlite3_finalize(o->st);
	return !b->dead;
}
enum sqlbox_code sqlbox_exec(struct sqlbox *b, size_t src, size_t stmt, size_t psz,
    const struct sqlbox_parm *ps, unsigned long flags) {
	sqlite3_stmt *st;
	int rc;
	if (b->dead || (st = prep(b, src, stmt, psz, ps)) == NULL) { b->dead = 1; return SQLBOX_CODE_ERROR; }
	rc = sqlite3_step(st);
	if (rc == SQLITE_ROW) misuse("exec returning rows: %s", b->stmts[stmt]);
	sqlite3_finalize(st);
	if (rc == SQLITE_DONE) return SQLBOX_CODE_OK;
	if ((rc & 0xff) == SQLITE_CONSTRAINT) {
		if (flags & SQLBOX_STMT_CONSTRAINT) return SQLBOX_CODE_CONSTRAINT;
		fprintf(stderr, "CONSTRAINT: %s\n", sqlite3_errmsg(b->db));
	} else
		misuse("exec: %s: %s", sqlite3_errmsg(b->db), b->stmts[stmt]);
	b->dead = 1;
	return SQLBOX_CODE_ERROR;
}
int sqlbox_lastid(struct sqlbox *b, size_t src, int64_t *id) {
	if (b->dead) return 0;
	*id = sqlite3_last_insert_rowid(b->db);
	return 1;
}
static int trans(struct sqlbox *b, const char *sql, size_t id, int opening) {
	if (b->dead) return 0;
	if (opening && b->trans) { b->dead = 1; return 0; }
	if (!opening && (!b->trans || b->transid != id)) { b->dead = 1; return 0; }
	if (sqlite3_exec(b->db, sql, NULL, NULL, NULL) != SQLITE_OK) {
		misuse("%s: %s", sql, sqlite3_errmsg(b->db)); b->dead = 1; return 0; }
	b->trans = opening; b->transid = id;
	fprintf(stderr, "TRANS %s\n", sql);
	return 1;
}
int sqlbox_trans_immediate(struct sqlbox *b, size_t s, size_t id) { return trans(b, "BEGIN IMMEDIATE", id, 1); }
int sqlbox_trans_deferred(struct sqlbox *b, size_t s, size_t id) { return trans(b, "BEGIN DEFERRED", id, 1); }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t s, size_t id) { return trans(b, "BEGIN EXCLUSIVE", id, 1); }
int sqlbox_trans_commit(struct sqlbox *b, size_t s, size_t id) { return trans(b, "COMMIT", id, 0); }
int sqlbox_trans_rollback(struct sqlbox *b, size_t s, size_t id) { return trans(b, "ROLLBACK", id, 0); }
int sqlbox_msg_set_dat(struct sqlbox *b, const void *p, size_t sz) { return 1; }

int sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v) {
	char *e;
	switch (p->type) {
	case SQLBOX_PARM_INT: *v = p->iparm; return 0;
	case SQLBOX_PARM_FLOAT: *v = (int64_t)p->fparm; misuse("real read as an integer"); return 1;
	case SQLBOX_PARM_STRING: misuse("string read as an integer"); errno = 0; *v = strtoll(p->sparm, &e, 10);
		return errno || *e || e == p->sparm ? -1 : 1;
	default: misuse("type %d read as an integer", p->type); return -1;
	}
}
int sqlbox_parm_float(const struct sqlbox_parm *p, double *v) {
	char *e;
	switch (p->type) {
	case SQLBOX_PARM_FLOAT: *v = p->fparm; return 0;
	case SQLBOX_PARM_INT: *v = (double)p->iparm; misuse("integer read as a real"); return 1;
	case SQLBOX_PARM_STRING: misuse("string read as a real"); *v = strtod(p->sparm, &e); return *e ? -1 : 1;
	default: misuse("type %d read as a real", p->type); return -1;
	}
}
int sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **v, size_t *sz) {
	if (p->type != SQLBOX_PARM_STRING) { misuse("type %d read as a string", p->type); return -1; }
	*v = strdup(p->sparm);
	if (sz) *sz = strlen(*v) + 1;
	return 0;
}
int sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **v, size_t *sz) {
	if (p->type != SQLBOX_PARM_BLOB) { misuse("type %d read as a blob", p->type); return -1; }
	*v = NULL; *sz = p->sz;
	if (p->sz) { *v = malloc(p->sz); memcpy(*v, p->bparm, p->sz); }
	return 0;
}

/* Password hashes: deterministic, and never equal to the password. */
static uint64_t fnv(const char *s, uint64_t h) {
	for (; *s; s++) { h ^= (unsigned char)*s; h *= UINT64_C(1099511628211); }
	return h;
}
static void mkhash(const char *p, char *h, size_t sz) {
	snprintf(h, sz, "$2b$10$%016" PRIx64 "%016" PRIx64, fnv(p, UINT64_C(14695981039346656037)), fnv(p, 99));
}
int crypt_newhash(const char *p, const char *pref, char *h, size_t sz) {
	if (p == NULL || strcmp(pref, "blowfish,a") || sz < 61) { misuse("crypt_newhash"); return -1; }
	mkhash(p, h, sz);
	return 0;
}
int crypt_checkpass(const char *p, const char *h) {
	char b[64];
	if (h == NULL) return -1;
	mkhash(p, b, sizeof(b));
	return strcmp(b, h) ? -1 : 0;
}

/* kcgi's validators. */
int kvalid_string(struct kpair *p) {
	if (strlen(p->val) != p->valsz) return 0;
	p->type = KPAIR_STRING; p->parsed.s = p->val; return 1;
}
int kvalid_stringne(struct kpair *p) { return kvalid_string(p) && p->valsz > 0; }
int kvalid_int(struct kpair *p) {
	char *e; long long v;
	const char *s;
	if (!kvalid_stringne(p)) return 0;
	for (s = p->val + (*p->val == '-' || *p->val == '+'); *s; s++) if (!isdigit((unsigned char)*s)) return 0;
	errno = 0; v = strtoll(p->val, &e, 10);
	if (*e || e == p->val || errno) return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = v; return 1;
}
int kvalid_uint(struct kpair *p) { return kvalid_int(p) && p->parsed.i >= 0; }
int kvalid_bit(struct kpair *p) { return kvalid_int(p) && p->parsed.i >= 0 && p->parsed.i <= 64; }
int kvalid_double(struct kpair *p) {
	char *e; double v;
	if (!kvalid_stringne(p)) return 0;
	errno = 0; v = strtod(p->val, &e);
	if (*e || e == p->val || errno || !isfinite(v)) return 0;
	p->type = KPAIR_DOUBLE; p->parsed.d = v; return 1;
}
int kvalid_udouble(struct kpair *p) { return kvalid_double(p) && p->parsed.d >= 0; }
int kvalid_email(struct kpair *p) {
	const char *at;
	char *c;
	if (!kvalid_stringne(p) || p->valsz < 5 || p->valsz > 254) return 0;
	if ((at = strchr(p->val, '@')) == NULL || at == p->val || at[1] == '\0' || strchr(at + 1, '@')) return 0;
	for (c = p->val; *c; c++) { if (isspace((unsigned char)*c)) return 0; *c = (char)tolower((unsigned char)*c); }
	return 1;
}
int kvalid_date(struct kpair *p) {
	struct tm tm, t2; time_t t; int i;
	if (p->valsz != 10 || p->val[4] != '-' || p->val[7] != '-' || strlen(p->val) != 10) return 0;
	for (i = 0; i < 10; i++) if (i != 4 && i != 7 && !isdigit((unsigned char)p->val[i])) return 0;
	memset(&tm, 0, sizeof(tm));
	tm.tm_year = atoi(p->val) - 1900; tm.tm_mon = atoi(p->val + 5) - 1; tm.tm_mday = atoi(p->val + 8);
	t2 = tm; t = timegm(&t2);
	if (t2.tm_mon != tm.tm_mon || t2.tm_mday != tm.tm_mday || t2.tm_year != tm.tm_year) return 0;
	p->type = KPAIR_INTEGER; p->parsed.i = t; return 1;
}

/* kcgijson's writer. */
static void js(struct kjsonreq *r, const char *s) {
	fputc('"', r->f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\' || c == '/') fprintf(r->f, "\\%c", c);
		else if (c == '\n') fputs("\\n", r->f); else if (c == '\r') fputs("\\r", r->f);
		else if (c == '\t') fputs("\\t", r->f); else if (c == '\b') fputs("\\b", r->f);
		else if (c == '\f') fputs("\\f", r->f);
		else if (c < 0x20) fprintf(r->f, "\\u%.4x", c); else fputc(c, r->f);
	}
	fputc('"', r->f);
}
static void pre(struct kjsonreq *r, const char *k) {
	if (r->comma[r->depth]) fputc(',', r->f);
	r->comma[r->depth] = 1;
	if (k != NULL && r->arr[r->depth]) misuse("key \"%s\" within a JSON array", k);
	if (k == NULL && !r->arr[r->depth]) misuse("JSON value without key within an object");
	if (k) { js(r, k); fputc(':', r->f); }
}
static void push(struct kjsonreq *r, int arr) { r->depth++; r->comma[r->depth] = 0; r->arr[r->depth] = arr; }
void shim_json_open(struct kjsonreq *r, FILE *f) { memset(r, 0, sizeof(*r)); r->f = f; }
int shim_json_close(struct kjsonreq *r) { if (r->depth) misuse("JSON scopes left open"); return 1; }
int kjson_obj_open(struct kjsonreq *r) { if (r->depth) pre(r, NULL); fputc('{', r->f); push(r, 0); return 1; }
int kjson_objp_open(struct kjsonreq *r, const char *k) { pre(r, k); fputc('{', r->f); push(r, 0); return 1; }
int kjson_obj_close(struct kjsonreq *r) {
	if (r->depth == 0 || r->arr[r->depth]) misuse("JSON object close");
	r->depth--; fputc('}', r->f); return 1; }
int kjson_array_open(struct kjsonreq *r) { if (r->depth) pre(r, NULL); fputc('[', r->f); push(r, 1); return 1; }
int kjson_arrayp_open(struct kjsonreq *r, const char *k) { pre(r, k); fputc('[', r->f); push(r, 1); return 1; }
int kjson_array_close(struct kjsonreq *r) {
	if (r->depth == 0 || !r->arr[r->depth]) misuse("JSON array close");
	r->depth--; fputc(']', r->f); return 1; }
int kjson_putnullp(struct kjsonreq *r, const char *k) { pre(r, k); fputs("null", r->f); return 1; }
int kjson_putnull(struct kjsonreq *r) { return kjson_putnullp(r, NULL); }
int kjson_putstringp(struct kjsonreq *r, const char *k, const char *v) { pre(r, k);
	if (v == NULL) { misuse("NULL string in JSON"); v = ""; } js(r, v); return 1; }
int kjson_putintp(struct kjsonreq *r, const char *k, int64_t v) { pre(r, k); fprintf(r->f, "%" PRId64, v); return 1; }
int kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v) { pre(r, k);
	fprintf(r->f, "\"%" PRId64 "\"", v); return 1; }
int kjson_putdoublep(struct kjsonreq *r, const char *k, double v) { pre(r, k); fprintf(r->f, "%.17g", v); return 1; }
int kjson_putboolp(struct kjsonreq *r, const char *k, int v) { pre(r, k); fputs(v ? "true" : "false", r->f); return 1; }
