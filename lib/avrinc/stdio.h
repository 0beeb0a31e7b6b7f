#ifndef S_H
#define S_H
#include <stddef.h>
typedef struct emlv_file FILE; extern FILE *stderr, *stdout, *stdin;
int printf(const char*,...); int fprintf(FILE*,const char*,...); int snprintf(char*,size_t,const char*,...); int sscanf(const char*,const char*,...);
size_t fwrite(const void*,size_t,size_t,FILE*); size_t fread(void*,size_t,size_t,FILE*); int fseek(FILE*,long,int); char *fgets(char*,int,FILE*);
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define EOF (-1)
int puts(const char*); int putchar(int); int fputs(const char*,FILE*); int fputc(int,FILE*); int fflush(FILE*); long ftell(FILE*); int feof(FILE*); int ferror(FILE*); int fclose(FILE*); FILE *fopen(const char*,const char*); int sprintf(char*,const char*,...); int fgetc(FILE*);
#endif
