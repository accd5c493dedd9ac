#ifndef SHIM_KCGI_H
#define SHIM_KCGI_H
#include <stddef.h>
#include <stdint.h>
enum kpairtype { KPAIR_INTEGER, KPAIR_STRING, KPAIR_DOUBLE, KPAIR__MAX };
enum kpairstate { KPAIR_UNCHECKED = 0, KPAIR_VALID, KPAIR_INVALID };
union parsed { int64_t i; const char *s; double d; };
struct kpair { char *key; size_t keypos; char *val; size_t valsz; char *file; char *ctype;
	size_t ctypepos; char *xcode; enum kpairstate state; enum kpairtype type; struct kpair *next;
	union parsed parsed; };
struct kvalid { int (*valid)(struct kpair *); const char *name; };
int kvalid_bit(struct kpair *);
int kvalid_date(struct kpair *);
int kvalid_double(struct kpair *);
int kvalid_email(struct kpair *);
int kvalid_int(struct kpair *);
int kvalid_string(struct kpair *);
int kvalid_stringne(struct kpair *);
int kvalid_udouble(struct kpair *);
int kvalid_uint(struct kpair *);
#endif
