#ifndef SHIM_KCGIJSON_H
#define SHIM_KCGIJSON_H
#include <stdint.h>
#include <stdio.h>
#include "kcgi.h"
struct kjsonreq { FILE *f; int comma[256], arr[256]; int depth; int bad; };
void shim_json_open(struct kjsonreq *, FILE *);
int shim_json_close(struct kjsonreq *);
int kjson_obj_open(struct kjsonreq *);
int kjson_objp_open(struct kjsonreq *, const char *);
int kjson_obj_close(struct kjsonreq *);
int kjson_array_open(struct kjsonreq *);
int kjson_arrayp_open(struct kjsonreq *, const char *);
int kjson_array_close(struct kjsonreq *);
int kjson_putnullp(struct kjsonreq *, const char *);
int kjson_putstringp(struct kjsonreq *, const char *, const char *);
int kjson_putintp(struct kjsonreq *, const char *, int64_t);
int kjson_putintstrp(struct kjsonreq *, const char *, int64_t);
int kjson_putdoublep(struct kjsonreq *, const char *, double);
int kjson_putboolp(struct kjsonreq *, const char *, int);
int kjson_putnull(struct kjsonreq *);
#endif
