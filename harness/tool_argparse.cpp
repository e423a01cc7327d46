// C36: the demonstration of the command line parser.
//@unit repo=core,argparse wrap=exit,printf,vprintf,puts,putchar,fputs,fputc,putc,fwrite
//@stub exit() ends the case: status 0 is right exactly where the help text is asked for, any other where an error is expected; standard output is kept
#define main tool_main
#include "../tools/argparse.cpp"
#undef main
#include <stdlib.h>
#include "toolout.hpp"

enum What { FINE, ERROR_, HELP };
static What expected;
static bool mentions(const char *s) {
    const size_t n = strlen(s);
    for(size_t i = 0; i + n <= out_n; ++i)
        if(!memcmp(out + i, s, n)) return true;
    return false;
}
extern "C" [[noreturn]] void __wrap_exit(int code) {
    if(code == 0) {
        CHECK(expected == HELP, "the process ends only to show the help text");
        static const char *const parts[] = {"tool", "Test application for command line parser.", "--foo", "The foo value to use.", "--bar",
                                            "The bar to barnicate.", "--size", "--include", "-I", "one", "two", "-v", "Verbose mode",
                                            "false"};
        for(auto p : parts) CHECK(mentions(p), "the help text names every option, its description and its default value");
        vx_reach("help");
    } else {
        CHECK(expected == ERROR_, "an error is reported only where there is one");
        vx_reach("error by message");
    }
    vx_end();
}
static const char *const pool[] = {"--foo=x", "--foo", "val", "--bar=y=z", "--bar=", "--size=3", "--size=10", "--size", "9", "-Iinc", "-I", "--include=k",
                                   "-v", "--verbose", "--help", "-h", "--", "-q", "--foobar=1", "--verbose=1", ""};
enum { NPOOL = sizeof(pool) / sizeof(*pool) };
static const char *foo, *bar, *included[8];
static long size_ = -1;
static int num_included, verbose;
static bool is(const char *a, const char *b) { return !strcmp(a, b); }
static What number(const char *s) {
    char *end;
    long v = strtol(s, &end, 10);
    if(!*s || *end || v < 0 || v > 9) return ERROR_;
    size_ = v;
    return FINE;
}
// The first option with an error decides.
static What read_line(int argc, const char **argv) {
    included[num_included++] = "one";
    included[num_included++] = "two";
    for(int i = 1; i < argc; ++i) {
        const char *a = argv[i];
        if(is(a, "--help") || is(a, "-h")) return HELP;
        if(is(a, "--")) return FINE;
        const char *value = nullptr;
        char key[12];
        size_t k = 0;
        if(a[0] == '-' && a[1] == '-') {
            while(a[k] && a[k] != '=') {
                key[k] = a[k];
                ++k;
            }
            key[k] = 0;
            if(a[k]) value = a + k + 1;
        } else if(a[0] == '-' && a[1]) {
            key[0] = '-';
            key[1] = a[1];
            key[2] = 0;
            if(a[2]) value = a + 2;
        } else return ERROR_;
        if(is(key, "-v")) {
            if(value) return ERROR_;
            verbose = 1;
            continue;
        }
        const bool inc = is(key, "-I") || is(key, "--include");
        if(!inc && !is(key, "--foo") && !is(key, "--bar") && !is(key, "--size")) return ERROR_;
        if(!value) {
            if(i + 1 >= argc) return ERROR_;
            value = argv[++i];
        }
        if(inc) included[num_included++] = value;
        else if(is(key, "--foo")) foo = value;
        else if(is(key, "--bar")) bar = value;
        else if(number(value) == ERROR_) return ERROR_;
    }
    return FINE;
}
static char want[400];
static size_t want_n;
static void add(const char *s) {
    while(*s) want[want_n++] = *s++;
}
//@ C36 every command line of up to 3 (4) words out of 21
HARNESS(argparse_tool) {
    const char *argv[8] = {"tool"};
    const int argc = 1 + (int)vx_pick("words", 0, QT(3, 4));
    for(int i = 1; i < argc; ++i) argv[i] = pool[vx_pick("word", 0, NPOOL - 1)];
    expected = read_line(argc, argv);
    add("Foo: ");
    add(foo ? foo : "undef");
    add("\nBar: ");
    add(bar ? bar : "undef");
    add("\nSize: ");
    const char digit[2] = {(char)('0' + size_), 0};
    add(size_ < 0 ? "-1" : digit);
    add("\nInclude: ");
    const char count[2] = {(char)('0' + num_included), 0};
    add(count);
    add(" entries \n");
    for(int i = 0; i < num_included; ++i) {
        add(" ");
        add(included[i]);
        add("\n");
    }
    add("Verbose: ");
    add(verbose ? "1\n" : "0\n");
    const uint64_t before = vx_live_allocs();
    bool thrown = false;
    try {
        CHECK(tool_main(argc, argv) == 0 && expected == FINE, "success only where there is no error");
        CHECK(printed(want), "the values of the command line are shown");
    } catch(const PyException &) {
        thrown = true;
    }
    CHECK(thrown == (expected == ERROR_), "refused only where there is an error");
    CHECK(vx_live_allocs() == before, "no memory left");
    vx_reach("shown");
}
