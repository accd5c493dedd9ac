/*
 * libFuzzer target over the whole library: an input is one or two ort(5)
 * documents (separated by a NUL byte), the first byte choosing options.
 * Every accepted configuration is audited, diffed, written and given to
 * every output language.  The monitors are the compiler's sanitizers and the
 * round trip of the writer.
 */
#include <sys/queue.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ort.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"

static FILE *devnull;
static unsigned long long n_in, n_acc, n_two, n_round, n_audit;

static void
stats(void)
{
	const char *fn = getenv("ORTV_STATS");
	FILE *f;
	if (fn == NULL || (f = fopen(fn, "w")) == NULL)
		return;
	fprintf(f, "{\"inputs\": %llu, \"accepted\": %llu, \"pairs\": %llu, "
	    "\"roundtrips\": %llu, \"audits\": %llu}\n",
	    n_in, n_acc, n_two, n_round, n_audit);
	fclose(f);
}

int
LLVMFuzzerInitialize(int *argc, char ***argv)
{
	devnull = fopen("/dev/null", "w");
	atexit(stats);
	return 0;
}

static struct config *
load(const uint8_t *d, size_t n)
{
	struct config *c;
	FILE *f;
	int rc = 0;

	if ((c = ort_config_alloc()) == NULL)
		return NULL;
	if (n == 0 || (f = fmemopen((void *)d, n, "r")) == NULL) {
		ort_config_free(c);
		return NULL;
	}
	if (ort_parse_file(c, f, "<fuzz>"))
		rc = ort_parse_close(c);
	fclose(f);
	ort_write_msg_file(devnull, &c->mq);
	if (!rc && TAILQ_EMPTY(&c->mq)) {
		fprintf(stderr, "ORTV: rejected without a message\n");
		abort();
	}
	if (!rc) {
		ort_config_free(c);
		return NULL;
	}
	return c;
}

static size_t
weight(const struct config *c)
{
	const struct strct *s;
	const struct alias *a;
	size_t n = 0;

	TAILQ_FOREACH(s, &c->sq, entries)
		TAILQ_FOREACH(a, &s->aq, entries)
			n++;
	return n;
}

static void
audits(const struct config *c)
{
	const struct role *r;
	struct auditq *q;

	TAILQ_FOREACH(r, &c->arq, allentries) {
		q = ort_audit(r, c);
		n_audit++;
		if (q == NULL)
			abort();
		ort_auditq_free(q);
	}
}

static void
langs(const struct config *c, unsigned o)
{
	struct ort_lang_c lc = { .guard = "G", .header = "db.h,other.h" };
	struct ort_lang_js js = { .ns = "ort" };
	struct ort_lang_nodejs nj = { 0 };
	struct ort_lang_json lj = { .flags = o & 1 };
	struct ort_lang_rust lr = { 0 };
	struct ort_lang_sql ls = { 0 };
	struct ort_lang_xliff lx;
	struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);

	memset(&lx, 0, sizeof(lx));
	lc.flags = o & 0x3f;
	lc.includes = ORT_LANG_C_DB_SQLBOX | ORT_LANG_C_VALID_KCGI;
	lc.ext_jsmn = "";
	ort_lang_c_header(&lc, c, devnull);
	ort_lang_c_source(&lc, c, devnull);
	ort_lang_c_manpage(&lc, c, devnull);
	js.ext_privMethods = "";
	js.flags = o & 1;
	ort_lang_javascript(c, &js, devnull);
	nj.flags = (o >> 1) & 0xf;
	ort_lang_nodejs(&nj, c, devnull);
	ort_lang_json(&lj, c, devnull);
	ort_lang_rust(&lr, c, devnull);
	ort_lang_sql(&ls, c, devnull);
	ort_lang_xliff_extract(&lx, c, devnull, &mq);
	ort_msgq_free(&mq);
}

static void
differ(const struct config *a, const struct config *b, unsigned o)
{
	struct diffq *q;
	struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	const char *fn = "f";

	if ((q = ort_diff(a, b)) == NULL)
		abort();
	ort_write_diff_file(devnull, q, &fn, 1, &fn, 1);
	ort_lang_diff_sql(NULL, q, o & 1, devnull, &mq);
	ort_msgq_free(&mq);
	ort_diffq_free(q);
}

int
LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	struct config *a, *b = NULL;
	const uint8_t *z;
	unsigned o;
	char *t1 = NULL, *t2 = NULL;
	size_t s1, s2;
	FILE *f;

	n_in++;
	if (n < 2)
		return 0;
	o = *d++;
	n--;
	z = memchr(d, 0, n);
	if ((a = load(d, z == NULL ? n : (size_t)(z - d))) == NULL)
		return 0;
	n_acc++;
	if (weight(a) > 400) {
		ort_config_free(a);
		return 0;
	}
	audits(a);
	langs(a, o);
	if (z != NULL && (b = load(z + 1, n - (z + 1 - d))) != NULL) {
		n_two++;
		if (weight(b) <= 400) {
			differ(a, b, o);
			differ(b, a, o);
		}
		ort_config_free(b);
	}
	differ(a, a, o);

	f = open_memstream(&t1, &s1);
	if (!ort_write_file(f, a))
		abort();
	fclose(f);
	b = load((uint8_t *)t1, s1);
	if (b == NULL) {
		fprintf(stderr, "ORTV: own output not accepted\n%s\n", t1);
		abort();
	}
	f = open_memstream(&t2, &s2);
	if (!ort_write_file(f, b))
		abort();
	fclose(f);
	n_round++;
	if (s1 != s2 || memcmp(t1, t2, s1)) {
		fprintf(stderr, "ORTV: output not a fixed point\n%s\n--\n%s\n", t1, t2);
		abort();
	}
	ort_config_free(b);
	ort_config_free(a);
	free(t1);
	free(t2);
	return 0;
}
