#ifndef EMLV_ERRNO
#define EMLV_ERRNO
extern int errno;
#define ERANGE 34
#define EINVAL 22
#endif
