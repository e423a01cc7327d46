// libc functions the library calls, as plain C so that they are executed symbolically too.
// Semantics: C locale.
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char *s) { size_t n = 0; while(s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
    while(*a && *a == *b) ++a, ++b;
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for(; n; --n, ++a, ++b) {
        if(*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
        if(!*a) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c) {
    for(;; ++s) {
        if(*s == (char)c) return (char *)s;
        if(!*s) return 0;
    }
}
char *strrchr(const char *s, int c) {
    const char *r = 0;
    for(;; ++s) {
        if(*s == (char)c) r = s;
        if(!*s) return (char *)r;
    }
}
void *memchr(const void *p, int c, size_t n) {
    const unsigned char *s = (const unsigned char *)p;
    for(; n; --n, ++s)
        if(*s == (unsigned char)c) return (void *)s;
    return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for(; i < n && s[i]; ++i) d[i] = s[i];
    for(; i < n; ++i) d[i] = 0;
    return d;
}
char *strstr(const char *h, const char *n) {
    for(;; ++h) {
        size_t i = 0;
        while(n[i] && h[i] == n[i]) ++i;
        if(!n[i]) return (char *)h;
        if(!*h) return 0;
    }
}
static int errno_model;
int *__errno_location(void) { return &errno_model; }
static int hexdigit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
// Skips a prefix that the base allows and settles base 0.
static const char *prefix(const char *p, int *base) {
    if((*base == 0 || *base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && hexdigit(p[2])) {
        *base = 16;
        return p + 2;
    }
    if(*base == 0) *base = p[0] == '0' ? 8 : 10;
    return p;
}
static int sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
unsigned long strtoul(const char *s, char **end, int base) {
    const char *p = s;
    int neg = 0, any = 0;
    unsigned long v = 0;
    int ovf = 0;
    while(sp(*p)) ++p;
    if(*p == '-') neg = 1, ++p;
    else if(*p == '+') ++p;
    p = prefix(p, &base);
    for(;; ++p) {
        int d;
        if(*p >= '0' && *p <= '9') d = *p - '0';
        else if(*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if(*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if(d >= base) break;
        any = 1;
        if(v > (~0ul - d) / base) ovf = 1;
        v = v * base + d;
    }
    if(end) *end = (char *)(any ? p : s);
    if(ovf) {
        errno_model = 34;
        return ~0ul;
    }
    return neg ? 0ul - v : v;
}
long strtol(const char *s, char **end, int base) {
    const char *p = s;
    int neg = 0, any = 0, ovf = 0;
    unsigned long v = 0;
    while(sp(*p)) ++p;
    if(*p == '-') neg = 1, ++p;
    else if(*p == '+') ++p;
    p = prefix(p, &base);
    for(;; ++p) {
        int d;
        if(*p >= '0' && *p <= '9') d = *p - '0';
        else if(*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if(*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if(d >= base) break;
        any = 1;
        if(v > (~0ul - d) / base) ovf = 1;
        v = v * base + d;
    }
    if(end) *end = (char *)(any ? p : s);
    unsigned long lim = neg ? 1ul << 63 : (1ul << 63) - 1;
    if(ovf || v > lim) {
        errno_model = 34;
        v = lim;
    }
    return neg ? (long)(0ul - v) : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
int tolower(int c) { return c + 32 * ((c >= 65) & (c <= 90)); }
int toupper(int c) { return c - 32 * ((c >= 97) & (c <= 122)); }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
int strcasecmp(const char *a, const char *b) {
    while(*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) ++a, ++b;
    return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
size_t strspn(const char *s, const char *a) {
    size_t n = 0;
    while(s[n] && strchr(a, s[n])) ++n;
    return n;
}
size_t strcspn(const char *s, const char *a) {
    size_t n = 0;
    while(s[n] && !strchr(a, s[n])) ++n;
    return n;
}
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }

// glibc character tables, indexable from -128 to 255
static const int32_t upper_tab[384] = {
    -128,-127,-126,-125,-124,-123,-122,-121,-120,-119,-118,-117,-116,-115,-114,-113,-112,-111,-110,-109,-108,-107,-106,-105,
    -104,-103,-102,-101,-100,-99,-98,-97,-96,-95,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,
    -80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-63,-62,-61,-60,-59,-58,-57,
    -56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,
    -32,-31,-30,-29,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-18,-17,-16,-15,-14,-13,-12,-11,-10,-9,
    -8,-7,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
    16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,
    40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,
    64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,
    88,89,90,91,92,93,94,95,96,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,
    80,81,82,83,84,85,86,87,88,89,90,123,124,125,126,127,128,129,130,131,132,133,134,135,
    136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,
    160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,
    184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,
    208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,
    232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static const int32_t lower_tab[384] = {
    -128,-127,-126,-125,-124,-123,-122,-121,-120,-119,-118,-117,-116,-115,-114,-113,-112,-111,-110,-109,-108,-107,-106,-105,
    -104,-103,-102,-101,-100,-99,-98,-97,-96,-95,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,
    -80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-63,-62,-61,-60,-59,-58,-57,
    -56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,
    -32,-31,-30,-29,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-18,-17,-16,-15,-14,-13,-12,-11,-10,-9,
    -8,-7,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
    16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,
    40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,
    64,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,
    120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,
    112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,
    136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,
    160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,
    184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,
    208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,
    232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static const unsigned short class_tab[384] = {
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,
    2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,24577,49156,49156,49156,49156,49156,49156,49156,
    49156,49156,49156,49156,49156,49156,49156,49156,55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,
    49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,
    50440,50440,50440,49156,49156,49156,49156,49156,49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,
    50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const int32_t *upper_p = upper_tab + 128, *lower_p = lower_tab + 128;
static const unsigned short *class_p = class_tab + 128;
const int32_t **__ctype_toupper_loc(void) { return &upper_p; }
const int32_t **__ctype_tolower_loc(void) { return &lower_p; }
const unsigned short **__ctype_b_loc(void) { return &class_p; }
char *strerror(int e) { (void)e; static char m[] = "some error"; return m; }
// Functions the library does not call at present; a rewritten loop might.
void *memcpy(void *, const void *, size_t);
void *malloc(size_t);
void *aligned_alloc(size_t, size_t);
void *realloc(void *, size_t);
void *memrchr(const void *p, int c, size_t n) {
    const unsigned char *s = (const unsigned char *)p;
    while(n--)
        if(s[n] == (unsigned char)c) return (void *)(s + n);
    return 0;
}
void *rawmemchr(const void *p, int c) {
    const unsigned char *s = (const unsigned char *)p;
    while(*s != (unsigned char)c) ++s;
    return (void *)s;
}
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) {
    for(size_t i = 0; i < n; ++i) {
        ((char *)d)[i] = ((const char *)s)[i];
        if(((const unsigned char *)s)[i] == (unsigned char)c) return (char *)d + i + 1;
    }
    return 0;
}
void *memmem(const void *h, size_t n, const void *x, size_t m) {
    const char *a = (const char *)h, *b = (const char *)x;
    for(size_t i = 0; m <= n && i <= n - m; ++i) {
        size_t j = 0;
        while(j < m && a[i + j] == b[j]) ++j;
        if(j == m) return (void *)(a + i);
    }
    return 0;
}
char *stpcpy(char *d, const char *s) { while((*d = *s)) ++d, ++s; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
    char *e = d + strlen(d);
    for(; n && *s; --n) *e++ = *s++;
    *e = 0;
    return d;
}
char *strchrnul(const char *s, int c) { while(*s && *s != (char)c) ++s; return (char *)s; }
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *strndup(const char *s, size_t n) {
    const size_t m = strnlen(s, n);
    char *r = (char *)malloc(m + 1);
    memcpy(r, s, m);
    r[m] = 0;
    return r;
}
char *strdup(const char *s) { return strndup(s, (size_t)-1); }
int strncasecmp(const char *a, const char *b, size_t n) {
    for(; n; --n, ++a, ++b) {
        const int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if(x != y) return x - y;
        if(!x) return 0;
    }
    return 0;
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int isxdigit(int c) { return hexdigit((char)c) && c < 256; }
int isgraph(int c) { return c > ' ' && c < 127; }
int isprint(int c) { return c >= ' ' && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < ' ') || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
void *reallocarray(void *p, size_t n, size_t m) { return realloc(p, n * m); }
double fabs(double v) { return v < 0 ? -v : v == 0 ? 0 : v; }
void qsort(void *p, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    char *a = (char *)p;
    for(size_t i = 1; i < n; ++i)
        for(size_t j = i; j > 0 && cmp(a + j * w, a + (j - 1) * w) < 0; --j)
            for(size_t k = 0; k < w; ++k) {
                const char t = a[j * w + k];
                a[j * w + k] = a[(j - 1) * w + k];
                a[(j - 1) * w + k] = t;
            }
}
void *bsearch(const void *key, const void *p, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    size_t lo = 0, hi = n;
    while(lo < hi) {
        const size_t mid = lo + (hi - lo) / 2;
        const char *e = (const char *)p + mid * w;
        const int r = cmp(key, e);
        if(r == 0) return (void *)e;
        if(r < 0) hi = mid; else lo = mid + 1;
    }
    return 0;
}
