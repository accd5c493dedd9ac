/*
 * Fails one allocation or one output operation of a tool, in a program
 * linked with --wrap for what's below.
 *   FI_MEM=n   the n-th allocation (from 1) returns NULL with ENOMEM
 *   FI_OUT=n   the n-th output operation on stdout fails with ENOSPC
 *   FI_RD=n    the n-th character read from a stream fails with EIO
 *   FI_MORE=1  everything of this kind after it fails also
 *   FI_LOG=f   write the call sites of every such operation to a file
 */
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

extern char __executable_start;

static long	 at[3], more, cnt[3];
static int	 init, lfd = -1;

static void
setup(void)
{
	const char	*s;

	init = 1;
	if ((s = getenv("FI_MEM")) != NULL) at[0] = atol(s);
	if ((s = getenv("FI_OUT")) != NULL) at[1] = atol(s);
	if ((s = getenv("FI_RD")) != NULL) at[2] = atol(s);
	more = getenv("FI_MORE") != NULL;
	if ((s = getenv("FI_LOG")) != NULL)
		lfd = open(s, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
}

static int
hit(int k)
{
	long	 n;
	void	*bt[7];
	int	 i, c;
	char	 b[200];
	size_t	 l;

	if (!init)
		setup();
	n = ++cnt[k];
	if (lfd != -1 && k != 2) {
		c = backtrace(bt, 7);
		l = (size_t)snprintf(b, sizeof(b), "%c", "mor"[k]);
		for (i = 2; i < c; i++) {
			uintptr_t d = (uintptr_t)bt[i] - (uintptr_t)&__executable_start;
			if (d > (1UL << 26))
				break;
			l += (size_t)snprintf(b + l, sizeof(b) - l, " %lx", (unsigned long)d);
		}
		b[l++] = '\n';
		if (write(lfd, b, l) != (ssize_t)l)
			_exit(99);
	}
	if (at[k] == 0 || !(n == at[k] || (more && n > at[k])))
		return 0;
	errno = k == 0 ? ENOMEM : k == 1 ? ENOSPC : EIO;
	return 1;
}

#define MEM(ret, name, par, arg, bad) \
	extern ret __real_##name par __attribute__((weak)); \
	ret __wrap_##name par { return hit(0) ? bad : __real_##name arg; }

MEM(void *, malloc, (size_t a), (a), NULL)
MEM(void *, calloc, (size_t a, size_t b), (a, b), NULL)
MEM(void *, realloc, (void *p, size_t a), (p, a), NULL)
MEM(void *, reallocarray, (void *p, size_t a, size_t b), (p, a, b), NULL)
MEM(char *, strdup, (const char *s), (s), NULL)
MEM(char *, strndup, (const char *s, size_t n), (s, n), NULL)
MEM(int, vasprintf, (char **s, const char *f, va_list ap), (s, f, ap), -1)
MEM(FILE *, fopen, (const char *s, const char *m), (s, m), NULL)
MEM(void *, XML_ParserCreate, (const char *s), (s), NULL)

int
__wrap_asprintf(char **s, const char *f, ...)
{
	va_list	 ap;
	int	 c;

	if (hit(0))
		return -1;
	va_start(ap, f);
	c = __real_vasprintf(s, f, ap);
	va_end(ap);
	return c;
}

/* A failure of output sets the stream's error indicator. */

static int
ohit(FILE *f)
{
	if (f != stdout || !hit(1))
		return 0;
	f->_flags |= 0x20;
	return 1;
}

#define OUT(ret, name, par, arg, f, bad) \
	extern ret __real_##name par; \
	ret __wrap_##name par { return ohit(f) ? bad : __real_##name arg; }

OUT(int, vfprintf, (FILE *f, const char *s, va_list ap), (f, s, ap), f, -1)
OUT(int, vprintf, (const char *s, va_list ap), (s, ap), stdout, -1)
OUT(int, fputs, (const char *s, FILE *f), (s, f), f, EOF)
OUT(int, puts, (const char *s), (s), stdout, EOF)
OUT(int, fputc, (int c, FILE *f), (c, f), f, EOF)
OUT(int, putc, (int c, FILE *f), (c, f), f, EOF)
OUT(int, putchar, (int c), (c), stdout, EOF)
OUT(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f, 0)

int
__wrap_fprintf(FILE *f, const char *s, ...)
{
	va_list	 ap;
	int	 c;

	if (ohit(f))
		return -1;
	va_start(ap, s);
	c = __real_vfprintf(f, s, ap);
	va_end(ap);
	return c;
}

int
__wrap_printf(const char *s, ...)
{
	va_list	 ap;
	int	 c;

	if (ohit(stdout))
		return -1;
	va_start(ap, s);
	c = __real_vfprintf(stdout, s, ap);
	va_end(ap);
	return c;
}

#define IN(name) \
	extern int __real_##name(FILE *); \
	int __wrap_##name(FILE *f) { \
		if (hit(2)) { f->_flags |= 0x20; return EOF; } \
		return __real_##name(f); }

IN(fgetc)
IN(getc)
