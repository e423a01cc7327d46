// C32: text of the released epoch.
#include <pystd2025ref.hpp>
#include <pystd2025.hpp>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include "epoch.hpp"
//@unit repo=core25,ref_core wrap=vsnprintf bcflags=-Wno-macro-redefined natflags=-Wno-macro-redefined
//@stub the released epoch is the copy in /verif/reference under another namespace; where it has a memory error, fails an assertion, aborts or does not end, there is no released behaviour and the case is not part of the claim
//@stub vsnprintf is a stand-in with the contract of the C library that yields the same text in both runs

static long text_len;
static char text[1100];
extern "C" int __wrap_vsnprintf(char *buf, size_t size, const char *format, va_list ap) {
    vx_assert(!strcmp(format, "%d"), "the format is passed on");
    vx_assert(va_arg(ap, int) == 7, "the arguments are passed on");
    if(text_len < 0) {
        errno = EILSEQ;
        return -1;
    }
    if(size) {
        size_t n = (size_t)text_len < size - 1 ? (size_t)text_len : size - 1;
        memcpy(buf, text, n);
        buf[n] = 0;
    }
    return (int)text_len;
}
namespace released {
using namespace pystd2025ref;
#include "epoch_body.inc"
#include "epoch_text.inc"
}
namespace current {
using namespace pystd2025;
#include "epoch_body.inc"
#include "epoch_text.inc"
}

//@ C32 byte sequences from every constructor, 1 (2) of 22 operations with arguments around the limits, arbitrary bytes [time=60/900]
HARNESS(epoch_bytes) {
    EPOCH(bytes);
    if(t.marks & 1) vx_reach("bytes: an exception");
}
//@ C32 byte sequences of up to 1 (2) arbitrary bytes, every sequence of 2 (3) operations [time=60/900]
HARNESS(epoch_bytes_sequence) { EPOCH(bytes_sequence); }
//@ C32 the last byte of sequences of up to 4 bytes
HARNESS(epoch_bytes_back) { EPOCH(bytes_back); }
//@ C32 byte sequences of 0 to 70 bytes, 6 operations that grow or move them
HARNESS(epoch_bytes_growth) { EPOCH(bytes_growth); }
//@ C32 views of up to 3 (4) arbitrary bytes, 11 operations [time=60/900]
HARNESS(epoch_view) {
    EPOCH(view_ops);
    if(t.marks & 1) vx_reach("view: an exception");
}
//@ C32 C strings from every constructor with up to 3 arbitrary bytes, 30 operations with arguments around the limits [time=60/900]
HARNESS(epoch_cstring) {
    EPOCH(cstring);
    if(t.marks & 1) vx_reach("string: an exception");
}
//@ C32 C strings of up to 2 characters, every sequence of 2 (3) operations [time=60/900]
HARNESS(epoch_cstring_sequence) { EPOCH(cstring_sequence); }
//@ C32 C strings of up to 2 characters, cleared and assigned
HARNESS(epoch_cstring_cleared) { EPOCH(cstring_cleared); }
//@ C32 C strings of 1 to 40 (130) characters, one of them arbitrary [time=60/900]
HARNESS(epoch_cstring_long) { EPOCH(cstring_long); }
//@ C32 fixed strings of capacity 3, 9 operations [time=60/900]
HARNESS(epoch_fixed_string) {
    EPOCH(fixed);
    if(t.marks & 1) vx_reach("fixed: an exception");
}
//@ C32 every sequence of up to 4 (5) bytes: accepted or refused, and iteration in both directions [time=60/900]
HARNESS(epoch_utf8_valid) {
    EPOCH(utf8_valid);
    if(t.marks & 1) vx_reach("UTF-8: refused");
}
//@ C32 every terminated string of up to 3 bytes [time=60/900]
HARNESS(epoch_utf8_terminated) { EPOCH(utf8_terminated); }
//@ C32 UTF-8 strings of up to 3 characters of 1 to 4 bytes, 19 operations [time=60/900]
HARNESS(epoch_utf8_ops) {
    EPOCH(utf8_ops);
    if(t.marks & 1) vx_reach("UTF-8 operation: an exception");
}
//@ C32 every 32-bit value as a codepoint to append
HARNESS(epoch_append_codepoint) { EPOCH(utf8_append_codepoint); }
//@ C32 exceptions with messages of up to 3 arbitrary bytes
HARNESS(epoch_exceptions) { EPOCH(exceptions); }
//@ C32 formatted texts of 0 to 3 arbitrary bytes, of 1021 to 1023 characters, and an error
HARNESS(epoch_format) {
    switch(vx_pick("length class", 0, 2)) {
    case 0: text_len = (long)vx_pick("short", 0, 3); break;
    case 1: text_len = (long)vx_pick("long", 1021, 1023); break;
    case 2: text_len = -1; break;
    }
    for(long i = 0; i < text_len; ++i) text[i] = i < 3 ? (char)vx_u8("char") : 'x';
    EPOCH(formatting);
    if(t.marks & 1) vx_reach("format: an exception");
}
