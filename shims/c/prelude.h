/* Force-included: what OpenBSD's unistd.h has and glibc's doesn't. */
#ifndef SHIM_PRELUDE_H
#define SHIM_PRELUDE_H
#include <stddef.h>
int crypt_newhash(const char *, const char *, char *, size_t);
int crypt_checkpass(const char *, const char *);
#endif
