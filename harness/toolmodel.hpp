// The bundled word tools: their main() runs on a modelled file.
#pragma once
#include "filemodel.hpp"
#include "toolout.hpp"

static int mapped = 0;
static char *area;
static size_t area_size;
extern "C" void *__wrap_mmap(void *, size_t n, int, int, int fd, long off) {
    vx_assert(fd == 77 && fake.open && off == 0, "the open file is mapped");
    if(step_fails("mmap fails")) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    vx_assert(n == fake.size && n > 0 && !mapped, "all of the file is mapped, once");
    area = (char *)malloc(n);
    memcpy(area, fake.data, n);
    area_size = n;
    ++mapped;
    return area;
}
extern "C" int __wrap_munmap(void *p, size_t n) {
    vx_assert(mapped == 1 && p == area && n == area_size, "the mapping is released, once");
    free(area);
    --mapped;
    return 0;
}

// The words of the input and the lines of the output.
struct Word {
    const char *p;
    size_t n;
    bool operator==(const Word &o) const { return n == o.n && same_bytes(p, o.p, n); }
};
enum { MAX_WORDS = 1000 };
static Word words[MAX_WORDS], lines[MAX_WORDS];
static size_t num_words, num_lines;
static void find_words(const char *p, size_t n) {
    num_words = 0;
    for(size_t i = 0; i < n;) {
        if(is_ws((unsigned char)p[i])) {
            ++i;
            continue;
        }
        size_t start = i;
        while(i < n && !is_ws((unsigned char)p[i])) ++i;
        words[num_words++] = Word{p + start, i - start};
    }
}
static void find_lines() {
    num_lines = 0;
    size_t start = 0;
    for(size_t i = 0; i < out_n; ++i)
        if(out[i] == '\n') {
            CHECK(num_lines < MAX_WORDS, "not more lines than words");
            lines[num_lines++] = Word{out + start, i - start};
            start = i + 1;
        }
    CHECK(start == out_n, "the last line is complete");
}
static size_t times(const Word *a, size_t n, const Word &w) {
    size_t r = 0;
    for(size_t i = 0; i < n; ++i) r += a[i] == w;
    return r;
}
// Well-formed UTF-8 (table 3-7 of the Unicode standard).
static bool well_formed(const char *s, size_t n) {
    const unsigned char *p = (const unsigned char *)s;
    for(size_t i = 0; i < n;) {
        const unsigned c = p[i];
        if(c < 0x80) {
            ++i;
            continue;
        }
        size_t more = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
        if(!more || n - i <= more) return false;
        unsigned lo = c == 0xE0 ? 0xA0 : c == 0xF0 ? 0x90 : 0x80, hi = c == 0xED ? 0x9F : c == 0xF4 ? 0x8F : 0xBF;
        if(p[i + 1] < lo || p[i + 1] > hi) return false;
        for(size_t k = 2; k <= more; ++k)
            if(p[i + k] < 0x80 || p[i + k] > 0xBF) return false;
        i += more + 1;
    }
    return true;
}
static char tool_name[] = "tool", tool_input[] = "file";
static int run_tool(const char *p, size_t n, int argc = 2) {
    fake.data = p;
    fake.size = n;
    out_n = 0;
    char *args[5] = {tool_name, tool_input, tool_input, tool_input, nullptr};
    args[argc] = nullptr;
    const uint64_t before = vx_live_allocs();
    const int rc = tool_main(argc, args);
    CHECK(!fake.open && opens == closes, "the file is closed");
    CHECK(mapped == 0, "the mapping is released");
    CHECK(vx_live_allocs() == before, "no memory left");
    return rc;
}
// Text made of words out of a pool, some of them many times; one byte of it may be arbitrary.
static char text[4000];
static size_t text_n;
static void compose(size_t count, size_t distinct, unsigned step, int separator) {
    text_n = 0;
    for(size_t i = 0; i < count; ++i) {
        const size_t k = (i * step + i / distinct * i) % distinct;
        if(separator && i % 7 == 3) text[text_n++] = '\t';
        for(size_t j = 0; j <= k % 5; ++j) text[text_n++] = (char)('a' + (k + j) % 26);
        if(k >= 26) {
            text[text_n++] = (char)0xC3;
            text[text_n++] = (char)(0x80 + k);
        }
        if(i + 1 < count || separator) text[text_n++] = i % 3 ? ' ' : '\n';
    }
}
