// C23: AddressSanitizer does not look into the number readers of the C library. These stand-ins (linked with --wrap) call
// the real one and then require that every byte it had to read, from the start of the text to the first character after
// the number, belongs to a live object. (What lies beyond that character is not judged.)
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <clocale>
#include <locale.h>
extern "C" {
void *__asan_region_is_poisoned(void *, size_t);
void __sanitizer_print_stack_trace();
static void live(const char *f, const char *s, const char *e) {
    void *p = __asan_region_is_poisoned(const_cast<char *>(s), size_t(e - s) + 1);
    if (!p) return;
    char *volatile here = static_cast<char *>(p); fprintf(stderr, "ERROR: AddressSanitizer: %s reads memory that is not part of a live object\n", f); __sanitizer_print_stack_trace();
    char c = *here; (void)c;      // an instrumented read: reports and ends the process
    _Exit(99);
}
#define FLOAT(T, F) T __real_##F(const char *, char **); T __wrap_##F(const char *s, char **e) { char *x = const_cast<char *>(s); T v = __real_##F(s, &x); live(#F, s, x); if (e) *e = x; return v; } 
#define FLOATL(T, F) T __real_##F(const char *, char **, locale_t); T __wrap_##F(const char *s, char **e, locale_t l) { char *x = const_cast<char *>(s); T v = __real_##F(s, &x, l); live(#F, s, x); if (e) *e = x; return v; }
#define INT(T, F) T __real_##F(const char *, char **, int); T __wrap_##F(const char *s, char **e, int b) { char *x = const_cast<char *>(s); T v = __real_##F(s, &x, b); live(#F, s, x); if (e) *e = x; return v; }
FLOAT(double, strtod) FLOAT(float, strtof) FLOAT(long double, strtold) FLOATL(double, strtod_l) FLOATL(float, strtof_l) FLOATL(long double, strtold_l)
INT(long, strtol) INT(unsigned long, strtoul) INT(long long, strtoll) INT(unsigned long long, strtoull)
INT(long, __isoc23_strtol) INT(unsigned long, __isoc23_strtoul) INT(long long, __isoc23_strtoll) INT(unsigned long long, __isoc23_strtoull)
double __wrap_atof(const char *s) { return __wrap_strtod(s, nullptr); }
}
