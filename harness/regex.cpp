// C26, C25: regular expression wrapper over every result the engine may return.
#include <pystd2026_regex.hpp>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <string.h>
#include "util.hpp"
//@unit repo=core,regex
//@stub PCRE2 is a stand-in: compilation and allocation may fail, a match may report any error, and a successful one any set of ranges its documentation allows (unset groups, a start behind the end through \K)

static int codes = 0, datas = 0, code_allocs = 0, data_allocs = 0;
static const char *want_pattern, *want_text;
static size_t text_size;
static size_t groups; // without group 0
static size_t chosen = (size_t)-1; // when set, only this group and group 0 have arbitrary ranges
static size_t message_size = 3;
static bool compile_fails, no_message, no_data;
static int match_result; // < 0: fails
struct Data {
    size_t v[2]; // and those of the other groups: the match data end with the last one
};
extern "C" {
pcre2_code_8 *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t options, int *error, PCRE2_SIZE *offset, pcre2_compile_context_8 *) {
    vx_assert(!strcmp((const char *)p, want_pattern), "the pattern is compiled");
    vx_assert(n == PCRE2_ZERO_TERMINATED || n == strlen(want_pattern), "all of the pattern is compiled");
    vx_assert(options & PCRE2_UTF, "compiled as Unicode");
    *error = 100;
    *offset = 0;
    if(compile_fails) return nullptr;
    ++codes;
    ++code_allocs;
    return (pcre2_code_8 *)malloc(8);
}
void pcre2_code_free_8(pcre2_code_8 *c) {
    if(!c) return;
    --codes;
    vx_assert(codes >= 0, "released once");
    free(c);
}
int pcre2_get_error_message_8(int, PCRE2_UCHAR8 *buf, PCRE2_SIZE size) {
    if(no_message) return PCRE2_ERROR_BADDATA;
    vx_assert(size >= 4, "room for the message");
    size_t k = message_size < size ? message_size : size - 1;
    for(size_t i = 0; i < k; ++i) buf[i] = (PCRE2_UCHAR8)('a' + i % 26);
    buf[k] = 0;
    return message_size < size ? (int)k : PCRE2_ERROR_NOMEMORY;
}
pcre2_match_data_8 *pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *c, pcre2_general_context_8 *) {
    vx_assert(c && codes == 1, "the pattern is alive");
    if(no_data) return nullptr;
    ++datas;
    ++data_allocs;
    Data *d = (Data *)malloc((groups + 1) * sizeof(Data));
    return (pcre2_match_data_8 *)d;
}
void pcre2_match_data_free_8(pcre2_match_data_8 *d) {
    if(!d) return;
    --datas;
    vx_assert(datas >= 0, "released once");
    free(d);
}
static size_t boundary(const char *what) {
    size_t k = vx_range(what, 0, text_size);
    // offsets lie between characters; only those of the group that is asked for are decided
    for(size_t i = 0; i < text_size; ++i)
        if(((unsigned char)want_text[i] & 0xc0) == 0x80) vx_assume(k != i);
    return k;
}
int pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE start, uint32_t, pcre2_match_data_8 *d, pcre2_match_context_8 *) {
    if(!d) return PCRE2_ERROR_NULL;
    vx_assert(c && codes == 1, "the pattern is alive");
    vx_assert((const char *)s == want_text, "the subject is searched");
    vx_assert(n == PCRE2_ZERO_TERMINATED || n == text_size, "all of the subject is searched");
    vx_assert(start == 0, "from its start");
    if(match_result < 0) return match_result;
    Data *m = (Data *)d;
    int top = 0;
    for(size_t g = 0; g <= groups; ++g) {
        m->v[2 * g] = m->v[2 * g + 1] = PCRE2_UNSET;
        if(chosen <= groups && g != chosen) {
            if(g % 3 == 2) continue;
            m->v[2 * g] = g;
            m->v[2 * g + 1] = text_size - g;
            top = (int)g;
            continue;
        }
        bool set = g == 0 || vx_sym("set", 1);
        m->v[2 * g] = vx_ite(set, boundary("from"), PCRE2_UNSET);
        m->v[2 * g + 1] = vx_ite(set, boundary("to"), PCRE2_UNSET);
        top = (int)vx_ite(set, g, (uint64_t)top);
    }
    return top + 1;
}
uint32_t pcre2_get_ovector_count_8(pcre2_match_data_8 *d) {
    vx_assert(d && datas > 0, "the match is alive");
    return (uint32_t)groups + 1;
}
PCRE2_SIZE *pcre2_get_ovector_pointer_8(pcre2_match_data_8 *d) {
    vx_assert(d && datas > 0, "the match is alive");
    return ((Data *)d)->v;
}
}

static void check_groups(U8Match &m, const U8String &text, const size_t *v) {
    CHECK(m.num_groups() == groups, "the number of groups");
    size_t g = vx_range("group", 0, groups + 2);
    if(vx_fork(vx_sym("far", 1))) g = (size_t)-1;
    g = vx_concretize(g);
    bool there = g <= groups && v[2 * g] != PCRE2_UNSET && v[2 * g] <= v[2 * g + 1];
    size_t from = there ? vx_concretize(v[2 * g]) : 0, to = there ? vx_concretize(v[2 * g + 1]) : 0;
    bool empty_view = false, empty_string = false;
    bool r = refused([&] {
        U8StringView w = m.group(g);
        if(!there && w.size_bytes() == 0) {
            empty_view = true;
            return;
        }
        vx_assert(there, "no text is reported for a group that is not there");
        vx_assert(w.size_bytes() == to - from, "a view of the captured range");
        vx_assert(to == from || (const char *)w.data() == text.c_str() + from, "a view inside the subject");
        vx_reach("view of a group");
    });
    CHECK(r == (!there && !empty_view), "a group that took part is reported");
    bool r2 = refused([&] {
        U8String s = m.get_submatch(g);
        if(!there && s.size_bytes() == 0) {
            empty_string = true;
            return;
        }
        vx_assert(there, "no text is reported for a group that is not there");
        vx_assert(s.size_bytes() == to - from, "the captured text");
        bool eq = true;
        for(size_t i = from; i < to; ++i) eq &= s.c_str()[i - from] == text.c_str()[i];
        vx_assert(eq, "the captured text");
        vx_reach("text of a group");
    });
    CHECK(r2 == (!there && !empty_string), "a group that took part is reported");
    if(g > groups) CHECK(r && r2, "groups that do not exist are refused");
}

//@ C26 subjects of up to 3 (4) characters of one to four bytes, up to 2 (3) groups, every set of ranges, every failure [time=60/900]
HARNESS(regex_search_groups) {
    {
        // a subject of whole characters
        static const char *const chars[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
        char buf[24];
        size_t n = 0;
        size_t count = vx_pick("characters", 0, QT(3, 4));
        for(size_t i = 0; i < count; ++i) {
            const char *c = chars[vx_pick("character", 0, 3)];
            while(*c) buf[n++] = *c++;
        }
        buf[n] = 0;
        U8String text(buf, n);
        want_text = text.c_str();
        text_size = n;
        groups = vx_pick("groups", 0, QT(2, 3));
        size_t fault = vx_pick("fault", 0, 4);
        compile_fails = fault == 1 || fault == 2;
        no_message = fault == 2;
        no_data = fault == 3;
        match_result = fault == 4 ? (vx_fork(vx_sym("no match", 1)) ? PCRE2_ERROR_NOMATCH : -44) : 0;
        want_pattern = "(b)|(c)";
        bool matched = false;
        bool r = refused([&] {
            U8String p(want_pattern);
            U8Regex re(p);
            vx_assert(!compile_fails, "a pattern that does not compile is refused");
            U8Match m = regex_search(re, text);
            matched = true;
            size_t v[2 * 4];
            for(size_t i = 0; i < 2 * (groups + 1); ++i) v[i] = ((Data *)m.h())->v[i];
            if(vx_fork(vx_sym("move", 1))) {
                U8Match m2(move(m));
                vx_assert(m.h() == nullptr && datas == 1, "a moved-from match owns nothing");
                check_groups(m2, text, v);
            } else
                check_groups(m, text, v);
        });
        CHECK(r == (fault != 0), "every failure is an exception, and nothing else is");
        CHECK(matched == (fault == 0), "a failed match is not a match");
        vx_reach(r ? "failed" : "searched");
    }
    CHECK(codes == 0 && datas == 0, "everything is released exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C25 patterns and matches that are made, moved and destroyed in every order of up to 4 (5) steps, a failure at any step [time=60/300]
HARNESS(regex_owners) {
    {
        U8String text("xbc");
        want_text = text.c_str();
        text_size = 3;
        groups = 1;
        want_pattern = "(b)|(c)";
        unique_ptr<U8Regex> re;
        unique_ptr<U8Match> m[2];
        size_t steps = vx_pick("steps", 0, QT(4, 5));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            switch(vx_pick("op", 0, 3)) {
            case 0: {
                if(re) break;
                compile_fails = vx_fork(vx_sym("compile fails", 1));
                no_message = compile_fails && vx_fork(vx_sym("no message", 1));
                bool r = refused([&] {
                    U8String p(want_pattern);
                    re.reset(new U8Regex(p));
                });
                vx_assert(r == compile_fails, "a pattern that does not compile is refused");
                break;
            }
            case 1: {
                if(!re) break;
                size_t fault = vx_pick("fault", 0, 2);
                no_data = fault == 1;
                match_result = fault == 2 ? PCRE2_ERROR_NOMATCH : 0;
                bool r = refused([&] { m[i].reset(new U8Match(regex_search(*re, text))); });
                vx_assert(r == (fault != 0), "a failed match is not a match");
                vx_reach(r ? "no match" : "match");
                break;
            }
            case 2:
                if(m[1 - i]) m[i].reset(new U8Match(move(*m[1 - i])));
                break;
            case 3:
                if(i) m[0].reset(nullptr);
                else re.reset(nullptr);
                break;
            }
            int owned = (m[0] && m[0]->h() ? 1 : 0) + (m[1] && m[1]->h() ? 1 : 0);
            vx_assert(datas == owned && codes == (re ? 1 : 0), "every live object has exactly one owner");
        }
    }
    CHECK(codes == 0 && datas == 0, "everything is released exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C26 subjects of 100 to 2049 characters, 1 to 40 groups of which one (at five places) has an arbitrary range among some; messages of 3 to 300 characters
//@ [time=60/300]
HARNESS(regex_long) {
    {
        static const uint16_t lens[] = {100, 255, 256, 257, 2049};
        size_t n = lens[vx_pick("length", 0, 4)];
        char *buf = (char *)malloc(n);
        letters(buf, n);
        U8String text(buf, n);
        want_text = text.c_str();
        text_size = n;
        static const uint8_t counts[] = {4, 9, 15, 16, 40};
        groups = counts[vx_pick("groups", 0, 4)];
        chosen = spot(groups);
        want_pattern = "(b)|(c)";
        U8String p(want_pattern);
        U8Regex re(p);
        U8Match m = regex_search(re, text);
        CHECK(m.num_groups() == groups, "the number of groups");
        for(size_t g = 0; g <= groups; ++g) {
            const size_t *v = ((Data *)m.h())->v + 2 * g;
            if(g == chosen) {
                static const uint8_t lo[] = {0, 50};
                size_t a = lo[vx_pick("from", 0, 1)], b = n - lo[vx_pick("to", 0, 1)];
                vx_assume(v[0] == PCRE2_UNSET || (v[0] == a && v[1] == b));
            }
            size_t from = vx_concretize(v[0]), to = vx_concretize(v[1]);
            bool there = from != PCRE2_UNSET && from <= to;
            bool r = refused([&] {
                U8StringView w = m.group(g);
                vx_assert(w.size_bytes() == to - from && (const char *)w.data() == text.c_str() + from, "a view of the captured range");
            });
            bool r2 = refused([&] {
                U8String s = m.get_submatch(g);
                vx_assert(s.size_bytes() == to - from && same_bytes(s.c_str(), text.c_str() + from, to - from), "the captured text");
            });
            CHECK(r == !there && r2 == !there, "a group that took part is reported");
        }
        CHECK(refused([&] { (void)m.group(groups + 1); }) && refused([&] { (void)m.get_submatch(groups + 1); }), "groups that do not exist are refused");
        compile_fails = true;
        static const uint16_t sizes[] = {3, 100, 158, 159, 160, 161, 300};
        message_size = sizes[groups == 4 ? vx_pick("message", 0, 6) : 0];
        bool said = false;
        try {
            U8Regex bad(p);
        } catch(const PyException &e) {
            const char *t = e.what().c_str();
            size_t k = strlen(t);
            said = true;
            CHECK(k > 0 && k == e.what().size_bytes(), "the failure is described");
            if(k == message_size)
                for(size_t i = 0; i < k; ++i) CHECK(t[i] == (char)('a' + i % 26), "the message of the engine");
        }
        CHECK(said, "a pattern that does not compile is refused");
        vx_reach("done");
        free(buf);
    }
    CHECK(codes == 0 && datas == 0, "everything is released exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
