// C28: printf style formatting.
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "util.hpp"
//@unit repo=core wrap=vsnprintf,abort
//@stub vsnprintf is a stand-in with the contract of the C library: it consumes its arguments, reports the full length or an error and writes what fits; abort() ends the case, as a violation unless the harness expects it

enum { MAXLEN = 2100 };
static char text[MAXLEN]; // what the format describes
static long text_len;     // negative: the call fails
static int formats = 0;
static int probe(size_t k) { return k == 0 ? 4242 : 77; }
extern "C" int __wrap_vsnprintf(char *buf, size_t size, const char *format, va_list ap) {
    ++formats;
    vx_assert(!strcmp(format, "%d %s %d"), "the format is passed on");
    vx_assert(va_arg(ap, int) == probe(0), "the arguments are passed on");
    vx_assert(va_arg(ap, const char *) == text, "the arguments are passed on");
    vx_assert(va_arg(ap, int) == probe(1), "the arguments are passed on");
    if(text_len < 0) {
        errno = EILSEQ;
        return -1;
    }
    if(size) {
        size_t n = (size_t)text_len < size - 1 ? (size_t)text_len : size - 1;
        for(size_t i = 0; i < n; ++i) buf[i] = text[i];
        buf[n] = 0;
    }
    return (int)text_len;
}
static bool expect_abort = false;
extern "C" [[noreturn]] void __wrap_abort() {
    CHECK(expect_abort, "formatting does not end the process");
    vx_reach("refused length");
    vx_end();
}
static void fill() {
    switch(vx_pick("length class", 0, 6)) {
    case 0: text_len = (long)vx_pick("short", 0, 3); break;
    case 1: text_len = (long)vx_pick("around the buffer size", 1021, 1027); break;
    case 2: text_len = (long)vx_pick("twice", 2046, 2050); break;
    case 3: text_len = (long)vx_pick("other", 1, 40) * 50; break;
    case 4: text_len = -1; break;
    case 5:
        text_len = INT_MAX - (long)vx_pick("huge", 0, 1);
        expect_abort = true;
        break;
    case 6: text_len = (long)vx_pick("powers", 4, 11); text_len = 1l << text_len; if(text_len >= MAXLEN) text_len = 2048; break;
    }
    for(size_t i = 0; i < MAXLEN; ++i) text[i] = (char)('A' + i % 23);
    if(text_len > 0 && text_len < MAXLEN) {
        // arbitrary characters at both ends and around the end of the internal buffer
        text[0] = (char)vx_u8("first");
        text[text_len - 1] = (char)vx_u8("last");
        if(text_len > 1023) text[1023] = (char)vx_u8("middle");
    }
}
static bool nul() { return text_len > 0 && ((text[0] == 0) | (text[text_len - 1] == 0) | (text_len > 1023 && text[1023] == 0)); }
static void same(const char *p, size_t n, size_t before, const char *old, const char *label) {
    vx_assert(n == before + (size_t)text_len, label);
    bool eq = true;
    for(size_t i = 0; i < before; ++i) eq &= p[i] == old[i];
    for(size_t i = before; i < n; ++i) eq &= p[i] == text[i - before];
    vx_assert(eq, label);
}

//@ C28 formatting into a new string, texts of up to 2100 characters over the internal buffer boundaries, failures and absurd lengths [time=60/300]
HARNESS(format_new) {
    {
        fill();
        bool done = false;
        bool r = refused([&] {
            CString s = cformat("%d %s %d", probe(0), (const char *)text, probe(1));
            done = true;
            same(s.c_str(), s.size(), 0, "", "the whole text");
            vx_assert(s.c_str()[s.size()] == 0, "terminated");
            vx_reach(text_len > 1023 ? "long text" : "short text");
        });
        CHECK(!expect_abort, "absurd lengths are refused");
        CHECK(r == (text_len < 0 || nul()), "refused exactly when the formatting failed or the text has a zero byte");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C28 appending to a string, to bytes and to a vector that have 0..2 characters already, the same texts [time=60/300]
HARNESS(format_appended) {
    {
        fill();
        size_t before = vx_pick("before", 0, 2);
        char old[3] = {0, 0, 0};
        for(size_t i = 0; i < before; ++i) {
            old[i] = (char)vx_u8("old");
            vx_assume(old[i] != 0);
        }
        size_t kind = vx_pick("kind", 0, 2);
        bool r = refused([&] {
            if(kind == 0) {
                CString s(old);
                bool r2 = refused([&] { format_append(s, "%d %s %d", probe(0), (const char *)text, probe(1)); });
                bool kept = s.size() >= before;
                for(size_t i = 0; i < before && i < s.size(); ++i) kept &= s.c_str()[i] == old[i];
                vx_assert(kept, "what was there is kept");
                if(r2) throw PyException("again");
                same(s.c_str(), s.size(), before, old, "the whole text is appended");
            } else if(kind == 1) {
                Bytes b(old, before);
                format_append(b, "%d %s %d", probe(0), (const char *)text, probe(1));
                same(b.data(), b.size(), before, old, "the whole text is appended");
            } else {
                Vector<char> v;
                for(size_t i = 0; i < before; ++i) v.push_back(old[i]);
                format_append(v, "%d %s %d", probe(0), (const char *)text, probe(1));
                same(v.is_empty() ? "" : &v[0], v.size(), before, old, "the whole text is appended");
            }
            vx_reach(text_len > 1023 ? "long text" : "short text");
        });
        CHECK(!expect_abort, "absurd lengths are refused");
        CHECK(r == (text_len < 0 || (kind == 0 && nul())), "refused exactly when the formatting failed or a string would have a zero byte");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

static int calls = 0;
static void call(const char *format, ...) {
    va_list ap;
    va_start(ap, format);
    cformat_with_cb(
        [](const char *buf, size_t size, void *ctx) {
            ++calls;
            vx_assert(ctx == (void *)&calls, "the context is passed on");
            same(buf, size, 0, "", "the whole text is passed on");
        },
        &calls,
        format,
        ap);
    va_end(ap);
}
//@ C28 the callback is called exactly once with the whole text [time=60/300]
HARNESS(format_callback) {
    {
        fill();
        bool r = refused([&] { call("%d %s %d", probe(0), (const char *)text, probe(1)); });
        CHECK(!expect_abort, "absurd lengths are refused");
        CHECK(r == (text_len < 0), "refused exactly when the formatting failed");
        CHECK(calls == (r ? 0 : 1), "called once");
        vx_reach(text_len > 1023 ? "long text" : "short text");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
