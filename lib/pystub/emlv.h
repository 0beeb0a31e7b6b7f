#ifndef EMLV_H
#define EMLV_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
__attribute__((noreturn)) void emlv_throw(void);
void *emlv_new(uint64_t bytes);                      // a fresh object of that size
void emlv_read(const void *p, int64_t bytes);        // obligation: the bytes are inside the object
void emlv_write(void *p, int64_t bytes);
void emlv_push(void *v);
int emlv_unknown(void);
}
#endif
