/* C library of the emulated machine */
#ifndef G_STRING_H
#define G_STRING_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *memcpy(void *, const void *, size_t);
void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t);
int memcmp(const void *, const void *, size_t);
size_t strlen(const char *);
int strcmp(const char *, const char *);
int strncmp(const char *, const char *, size_t);
void *memchr(const void *, int, size_t);
char *strcpy(char *, const char *);
#ifdef __cplusplus
}
#endif
#endif
