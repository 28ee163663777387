#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
#ifdef __cplusplus
extern "C"
#endif
void g_assert_fail(const char *, const char *, unsigned int);
#define assert(x) ((x) ? (void)0 : g_assert_fail(#x, __FILE__, __LINE__))
#endif
