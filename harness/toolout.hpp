// The bundled tools: what they print is kept.
#pragma once
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "util.hpp"

// Standard output.
enum { OUT_MAX = 8000 };
static char out[OUT_MAX];
static size_t out_n = 0;
static void emit(char c) {
    vx_assert(out_n < OUT_MAX, "the output is not longer than expected");
    out[out_n++] = c;
}
static void emit(const char *s, size_t n) {
    for(size_t i = 0; i < n && s[i]; ++i) emit(s[i]);
}
static void emit_number(unsigned long long v, bool negative) {
    char d[24];
    int n = 0;
    if(negative) emit('-');
    do d[n++] = (char)('0' + v % 10);
    while(v /= 10);
    while(n) emit(d[--n]);
}
static int print_list(const char *f, va_list ap) {
    const size_t before = out_n;
    for(; *f; ++f) {
        if(*f != '%') {
            emit(*f);
            continue;
        }
        ++f;
        size_t limit = (size_t)-1;
        if(*f == '.' && f[1] == '*') {
            limit = (size_t)(long)va_arg(ap, int);
            f += 2;
        }
        int wide = 0;
        while(*f == 'l' || *f == 'z' || *f == 'j') {
            ++wide;
            ++f;
        }
        switch(*f) {
        case '%': emit('%'); break;
        case 'c': emit((char)va_arg(ap, int)); break;
        case 's': emit(va_arg(ap, const char *), limit); break;
        case 'd':
        case 'i': {
            long long v = wide ? va_arg(ap, long) : va_arg(ap, int);
            emit_number(v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0);
            break;
        }
        case 'u': emit_number(wide ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), false); break;
        default: vx_fail("only formats the stand-in knows");
        }
    }
    return (int)(out_n - before);
}
extern "C" {
int __wrap_printf(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = print_list(f, ap);
    va_end(ap);
    return n;
}
int __wrap_vprintf(const char *f, va_list ap) { return print_list(f, ap); }
int __wrap_puts(const char *s) {
    emit(s, (size_t)-1);
    emit('\n');
    return 1;
}
int __wrap_putchar(int c) {
    emit((char)c);
    return c;
}
int __wrap_fputs(const char *s, FILE *f) {
    if(f == stdout) emit(s, (size_t)-1);
    return 1;
}
int __wrap_fputc(int c, FILE *f) {
    if(f == stdout) emit((char)c);
    return c;
}
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
size_t __wrap_fwrite(const void *p, size_t size, size_t n, FILE *f) {
    if(f == stdout)
        for(size_t i = 0; i < size * n; ++i) emit(((const char *)p)[i]);
    return n;
}
}
static bool printed(const char *s) {
    return out_n == strlen(s) && same_bytes(out, s, out_n);
}
