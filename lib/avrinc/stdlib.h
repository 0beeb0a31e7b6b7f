#ifndef EMLV_STDLIB
#define EMLV_STDLIB
#include <stddef.h>
int abs(int); long labs(long); void exit(int); void abort(void); char *getenv(const char*); double strtod(const char*,char**); float strtof(const char*,char**); long strtol(const char*,char**,int);
int atoi(const char*); long atol(const char*); double atof(const char*); void *malloc(size_t); void *calloc(size_t,size_t); void *realloc(void*,size_t); void free(void*); int rand(void); void qsort(void*,size_t,size_t,int(*)(const void*,const void*));
#endif
