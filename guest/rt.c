/* Runtime of the emulated machine: services of the emulator (src/emu.h) and what the compiler calls. */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#define SVC(NAME, N) __asm__(".text\n.set noreorder\n.globl " #NAME "\n.type " #NAME ", @function\n" #NAME ":\n syscall " #N "\n jr $ra\n nop\n.size " #NAME ", .-" #NAME "\n.set reorder\n");
SVC(g_stop, 0)
SVC(malloc, 1)
SVC(free, 2)
SVC(memcpy, 3)
SVC(memmove, 4)
SVC(memset, 5)
SVC(memcmp, 6)
SVC(g_assert_fail, 7)
SVC(abort, 8)
SVC(exit, 8)
SVC(g_size, 9)
size_t g_size(void *);
void *calloc(size_t n, size_t m) { void *p; if(m && n > SIZE_MAX / m) return 0; p = malloc(n * m); if(p) memset(p, 0, n * m); return p; }
void *realloc(void *p, size_t n) { void *q = malloc(n); size_t k; if(q && p) { k = g_size(p); memcpy(q, p, k < n ? k : n); free(p); } return q; }
size_t strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (unsigned char)*a - (unsigned char)*b; if(!*a) break; } return 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *q = p; for(; n; n--, q++) if(*q == (unsigned char)c) return (void *)q; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)); return r; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
static uint64_t udm(uint64_t n, uint64_t d, uint64_t *rem)
{
	uint64_t q = 0, r = 0; int i;
	if(!d) abort();
	for(i = 0; i < 64; i++) { r = (r << 1) | (n >> 63); n <<= 1; q <<= 1; if(r >= d) { r -= d; q |= 1; } }
	*rem = r; return q;
}
uint64_t __udivdi3(uint64_t n, uint64_t d) { uint64_t r; return udm(n, d, &r); }
uint64_t __umoddi3(uint64_t n, uint64_t d) { uint64_t r; udm(n, d, &r); return r; }
int64_t __divdi3(int64_t a, int64_t b) { uint64_t r, q = udm(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return (a < 0) != (b < 0) ? -q : q; }
int64_t __moddi3(int64_t a, int64_t b) { uint64_t r; udm(a < 0 ? -(uint64_t)a : a, b < 0 ? -(uint64_t)b : b, &r); return a < 0 ? -r : r; }
