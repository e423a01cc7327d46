// Native implementation of the harness interface: replays values chosen by the solver against the
// real code, compiled by the real compiler with AddressSanitizer.
// usage: replay FILE ENTRY ; FILE holds lines "case v v v ..."; each case runs in a child process.
#include "vx.h"
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
static void (*entry)();
static unsigned long long *vals;
static size_t nvals, pos;
static bool allow_leaks;
static long live, baseline;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VX_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *));
static void mh(const volatile void *, size_t) { ++live; }
static void fh(const volatile void *p) { if(p) --live; }
#endif
#endif
extern "C" {
static unsigned long long take() {
    if(pos < nvals) return vals[pos++];
    ++pos;
    return 0;
}
uint64_t vx_sym(const char *, int bits) {
    uint64_t v = take();
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t vx_range(const char *, uint64_t lo, uint64_t hi) {
    uint64_t v = take() & 0xffffffff;
    if(v < lo || v > hi) {
        dprintf(1, "\nASSUME-FAILED range\n");
        _exit(78);
    }
    return v;
}
void vx_assume(bool c) {
    if(!c) {
        dprintf(1, "\nASSUME-FAILED\n");
        _exit(78);
    }
}
void vx_assert(bool c, const char *l) {
    if(!c) {
        dprintf(1, "\nVIOLATION assert %s\n", l);
        _exit(77);
    }
}
void vx_fail(const char *l) {
    dprintf(1, "\nVIOLATION assert %s\n", l);
    _exit(77);
}
void vx_end() {
    dprintf(1, "\nCOMPLETE\n");
    _exit(0);
}
void vx_reach(const char *) {}
void vx_observe(const char *l, uint64_t v) { dprintf(1, "\nOBS %s %llu\n", l, (unsigned long long)v); }
uint64_t vx_live_allocs() { return live - baseline; }
static uint64_t work_done;
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { ++work_done; }
uint64_t vx_work() { return work_done; }
size_t __sanitizer_get_current_allocated_bytes();
uint64_t vx_heap() { return __sanitizer_get_current_allocated_bytes(); }
void vx_allow_leaks() { allow_leaks = true; }
void vx_tolerate(bool) {}
uint64_t vx_concretize(uint64_t v) { return v; }
bool vx_fork(bool c) { return c; }
uint64_t vx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int vx_is_engine() { return 0; }
}
static void run_case() {
    alarm(20);
#ifdef VX_ASAN
    __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
    baseline = live;
    entry();
#ifdef VX_ASAN
    if(!allow_leaks && live != baseline) {
        dprintf(1, "\nVIOLATION leak %ld block(s)\n", live - baseline);
        _exit(77);
    }
#endif
    dprintf(1, "\nCOMPLETE\n");
    _exit(0);
}
int main(int argc, char **argv) {
    if(argc < 3) return 2;
    // plain system calls, since harnesses replace the stdio ones
    int fd = open(argv[1], O_RDONLY);
    if(fd < 0) return 2;
    size_t len = 0, room = 1 << 20;
    char *text = (char *)malloc(room + 1);
    for(ssize_t got; (got = read(fd, text + len, room - len)) > 0;) {
        len += (size_t)got;
        if(len == room) text = (char *)realloc(text, (room *= 2) + 1);
    }
    close(fd);
    text[len] = 0;
    entry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
    if(!entry) return 3;
    setvbuf(stdout, nullptr, _IONBF, 0);
    int n = 0;
    for(char *line = text, *next; *line; line = next) {
        next = line + strcspn(line, "\n");
        if(*next) *next++ = 0;
        if(strncmp(line, "case", 4) != 0) continue;
        nvals = pos = 0;
        vals = (unsigned long long *)malloc(8 * (strlen(line) + 1));
        char *p = line + 4, *e;
        for(;;) {
            unsigned long long v = strtoull(p, &e, 10);
            if(e == p) break;
            vals[nvals++] = v;
            p = e;
        }
        dprintf(1, "\nCASE %d\n", n++);
        pid_t c = fork();
        if(c == 0) run_case();
        int st;
        waitpid(c, &st, 0);
        if(WIFSIGNALED(st)) dprintf(1, "\nEND signal %d\n", WTERMSIG(st));
        else dprintf(1, "\nEND exit %d\n", WEXITSTATUS(st));
        free(vals);
    }
    return 0;
}
