#ifndef G_STDIO_H
#define G_STDIO_H
#include <stddef.h>
typedef struct g_file FILE;
extern FILE *stderr;
#define EOF (-1)
#define BUFSIZ 1024
#define _IONBF 2
#define _IOFBF 0
FILE *fopen(const char *, const char *);
int fclose(FILE *);
size_t fread(void *, size_t, size_t, FILE *);
size_t fwrite(const void *, size_t, size_t, FILE *);
int fgetc(FILE *);
int getc(FILE *);
int feof(FILE *);
int ferror(FILE *);
int fseek(FILE *, long, int);
int setvbuf(FILE *, char *, int, size_t);
void setbuf(FILE *, char *);
int printf(const char *, ...);
int fprintf(FILE *, const char *, ...);
int perror(const char *);
#endif
