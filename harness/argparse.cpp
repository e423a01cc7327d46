// C21: command line parsing against an independent reading of the command line.
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "util.hpp"
#include <pystd2026_variant.hpp>
#define private public
#include <pystd2026_argparse.hpp>
#undef private
//@unit repo=core,argparse wrap=exit
//@stub exit() ends the case: status 0 is right exactly where the reference expects the help text, any other where it expects an error; messages go nowhere

enum What { FINE, ERROR_, HELP };
static What expected;
extern "C" [[noreturn]] void __wrap_exit(int code) {
    if(code == 0) {
        CHECK(expected == HELP, "the process ends only to show the help text");
        vx_reach("help");
    } else {
        CHECK(expected == ERROR_, "an error is reported only where there is one");
        vx_reach("error by message");
    }
    vx_end();
}

// ---------------------------------------------------------------- reference
struct Str {
    const char *p = nullptr;
    size_t n = 0;
};
static Str str(const char *p) { return {p, strlen(p)}; }
static bool same(Str a, const char *b) {
    size_t n = strlen(b);
    if(a.n != n) return false;
    for(size_t i = 0; i < n; ++i)
        if(a.p[i] != b[i]) return false;
    return true;
}
enum Type { STRING, NUMBER, APPEND, TRUE_, FALSE_, ARRAY };
struct Opt {
    const char *name;
    char sh;
    const char *lo;
    Type type;
    bool limited = false;
    bool takes() const { return type != TRUE_ && type != FALSE_; }
};
static const Opt opts[] = {{"str", 's', "--s", STRING},       {"num", 'i', "--i", NUMBER, true}, {"app", 'a', "--ar", APPEND},
                           {"yes", 'v', "--v", TRUE_},        {"no", 0, "--no", FALSE_},         {"arr", 'x', "", ARRAY},
                           {"big", 'b', "--big", NUMBER}};
enum { NOPT = 7, MINNUM = -5, MAXNUM = 20 };
struct Ref {
    bool given[NOPT] = {};
    Str text[NOPT];
    int64_t number[NOPT] = {};
    Str app[48];
    size_t napp = 0;
    Str pos[48], extra[48];
    size_t npos = 0, nextra = 0;
};
static Ref ref;
// A whole decimal number: optional white space, optional sign, digits.
static bool number(Str s, int64_t &out) {
    size_t i = 0;
    while(i < s.n && (s.p[i] == ' ' || (s.p[i] >= 9 && s.p[i] <= 13))) ++i;
    bool neg = false;
    if(i < s.n && (s.p[i] == '-' || s.p[i] == '+')) neg = s.p[i++] == '-';
    if(i == s.n) return false;
    uint64_t v = 0, limit = neg ? 1ull << 63 : (1ull << 63) - 1;
    for(; i < s.n; ++i) {
        if(s.p[i] < '0' || s.p[i] > '9') return false;
        uint64_t d = (uint64_t)(s.p[i] - '0');
        if(v > (limit - d) / 10) return false;
        v = v * 10 + d;
    }
    out = neg ? (int64_t)(0 - v) : (int64_t)v;
    return true;
}
static bool take(size_t k, Str v) {
    const Opt &o = opts[k];
    if(o.type == NUMBER) {
        int64_t x;
        if(!number(v, x)) return false;
        if(o.limited && (x < MINNUM || x > MAXNUM)) return false;
        ref.number[k] = x;
    } else if(o.type == APPEND)
        ref.app[ref.napp++] = v;
    ref.text[k] = v;
    ref.given[k] = true;
    return true;
}
static What reference(int argc, const char **argv, bool positional) {
    for(int i = 1; i < argc; ++i) {
        Str cur = str(argv[i]);
        if(cur.n == 0) return ERROR_;
        if(same(cur, "--help") || same(cur, "-h")) return HELP;
        if(same(cur, "--")) {
            while(++i < argc) ref.extra[ref.nextra++] = str(argv[i]);
            break;
        }
        if(cur.n > 1 && cur.p[0] == '-') {
            size_t k = 0;
            Str value;
            bool joined = false;
            if(cur.p[1] == '-') {
                Str key = cur;
                size_t e = 0;
                while(e < cur.n && cur.p[e] != '=') ++e;
                if(e < cur.n) {
                    joined = true;
                    key.n = e;
                    value = {cur.p + e + 1, cur.n - e - 1};
                }
                while(k < NOPT && !(opts[k].lo[0] && same(key, opts[k].lo))) ++k;
            } else {
                while(k < NOPT && opts[k].sh != cur.p[1]) ++k;
                if(cur.n > 2) {
                    joined = true;
                    value = {cur.p + 2, cur.n - 2};
                }
            }
            if(k == NOPT) return ERROR_;
            if(opts[k].takes()) {
                if(!joined) {
                    if(++i >= argc) return ERROR_;
                    value = str(argv[i]);
                }
            } else if(joined)
                return ERROR_;
            if(!take(k, value)) return ERROR_;
        } else {
            if(!positional) return ERROR_;
            ref.pos[ref.npos++] = cur;
        }
    }
    return FINE;
}

// ---------------------------------------------------------------- comparison
static void equal(const CString &a, Str b, const char *label) {
    vx_assert(a.size() == b.n, label);
    bool eq = true;
    for(size_t i = 0; i < b.n; ++i) eq &= a.c_str()[i] == b.p[i];
    vx_assert(eq, label);
}
static void equal(const Vector<CString> &a, const Str *b, size_t n, const char *label) {
    vx_assert(a.size() == n, label);
    for(size_t i = 0; i < n; ++i) equal(a[i], b[i], label);
}
template<typename O> static void compare_rest(const O &out) {
    // not part of the public interface
    if constexpr(requires { out.pr.posargs.size(); out.pr.extra_args.size(); }) {
        equal(out.pr.posargs, ref.pos, ref.npos, "the positional arguments are what is left");
        equal(out.pr.extra_args, ref.extra, ref.nextra, "everything behind the end marker is kept");
    }
}
static void compare(const ParseOutput &out) {
    for(size_t k = 0; k < NOPT; ++k) {
        const Opt &o = opts[k];
        const ArgumentValue *v = out.value_of(CStringView(o.name));
        bool has_default = o.type == APPEND || o.type == TRUE_;
        vx_assert((v != nullptr) == (ref.given[k] || has_default), "an option has a value exactly when it was given or has a default");
        if(!v) continue;
        switch(o.type) {
        case STRING: equal(v->get<CString>(), ref.text[k], "the value that was given last"); break;
        case NUMBER: vx_assert(v->get<int64_t>() == ref.number[k], "the number that was given last"); break;
        case APPEND: {
            Str want[49];
            want[0] = str("d");
            for(size_t i = 0; i < ref.napp; ++i) want[i + 1] = ref.app[i];
            equal(v->get<Vector<CString>>(), want, ref.napp + 1, "the values are appended to the default");
            break;
        }
        case ARRAY: equal(v->get<Vector<CString>>(), &ref.text[k], 1, "the value that was given last"); break;
        case TRUE_: vx_assert(v->get<bool>() == ref.given[k], "set exactly when given"); break;
        case FALSE_: vx_assert(v->get<bool>() == false, "cleared when given"); break;
        }
        if(ref.given[k]) vx_reach("given option");
    }
    vx_assert(out.value_of(CStringView("zzz")) == nullptr, "unknown names have no value");
    compare_rest(out);
}
static void setup(ArgParse &p) {
    for(const Opt &o : opts) {
        Argument a;
        a.name = CString(o.name);
        a.short_arg = o.sh;
        a.long_arg = CString(o.lo);
        switch(o.type) {
        case STRING: a.type = ArgumentType::String; break;
        case NUMBER:
            a.type = ArgumentType::Integer;
            if(o.limited) {
                a.minval = MINNUM;
                a.maxval = MAXNUM;
            }
            break;
        case APPEND: {
            a.type = ArgumentType::StringArray;
            a.aaction = ArgumentAction::AppendArray;
            Vector<CString> d;
            d.push_back(CString("d"));
            a.default_value = ArgumentValue(move(d));
            break;
        }
        case TRUE_:
            a.type = ArgumentType::Boolean;
            a.aaction = ArgumentAction::StoreTrue;
            a.default_value = ArgumentValue(false);
            break;
        case FALSE_:
            a.type = ArgumentType::Boolean;
            a.aaction = ArgumentAction::StoreFalse;
            break;
        case ARRAY: a.type = ArgumentType::StringArray; break;
        }
        p.add_argument(move(a));
    }
}
// The argument vector lies in blocks of exactly its size, so that any read outside is seen.
struct Argv {
    const char **v;
    int argc;
    explicit Argv(int n) : argc{n} {
        v = (const char **)malloc(sizeof(char *) * (size_t)n);
        char *name = (char *)malloc(5);
        memcpy(name, "prog", 5);
        v[0] = name;
    }
    Argv(const Argv &) = delete;
    ~Argv() {
        for(int i = 0; i < argc; ++i) free((void *)v[i]);
        free(v);
    }
    char *fresh(int i, size_t n) {
        char *p = (char *)malloc(n + 1);
        p[n] = 0;
        v[i] = p;
        return p;
    }
    void arbitrary(int i, size_t n) {
        char *p = fresh(i, n);
        for(size_t k = 0; k < n; ++k) {
            p[k] = (char)vx_u8("char");
            vx_assume(p[k] != 0);
        }
    }
};
static void run(Argv &a, ArgParse &p, bool positional) {
    ref = Ref();
    expected = reference(a.argc, a.v, positional);
    bool ok = false;
    bool r = refused([&] {
        auto out = p.parse_args(a.argc, a.v);
        if(!out) return;
        ok = true;
        vx_assert(expected == FINE, "a result exactly when the command line has no error");
        compare(*out);
    });
    CHECK(ok == (expected == FINE), "a result exactly when the command line has no error");
    CHECK(!r || expected == ERROR_, "an error is reported only where there is one");
    vx_reach(ok ? "parsed" : "error by exception");
}

//@ C21 up to 2 (3) arguments of up to 4 arbitrary characters each against seven options of all kinds [time=60/900] [reach-=given option]
HARNESS(arguments_arbitrary) {
    {
        int n = (int)vx_pick("arguments", 0, QT(2, 3));
        Argv a(n + 1);
        for(int i = 1; i <= n; ++i) a.arbitrary(i, vx_pick("length", 0, n < 3 ? 4 : 3));
        bool positional = vx_fork(vx_sym("positional", 1));
        ArgParse p{U8String("text")};
        setup(p);
        if(positional) p.permit_posargs();
        run(a, p, positional);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 one argument of up to 6 (7) arbitrary characters and one of up to 1 (2) [time=60/900]
HARNESS(argument_long) {
    {
        int n = (int)vx_pick("arguments", 1, 2);
        Argv a(n + 1);
        a.arbitrary(1, vx_pick("length", 5, QT(6, 7)));
        if(n == 2) a.arbitrary(2, vx_pick("second length", 0, QT(1, 2)));
        ArgParse p{U8String("text")};
        setup(p);
        p.permit_posargs();
        run(a, p, true);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
static const char *const words[] = {"-s", "--s", "--s=", "-sv", "-i7", "--i", "3", "--ar", "-aq", "-v", "--no", "--", "-", "w", "-x", "--help", "--big=-9"};
//@ C21 every sequence of up to 4 (5) out of 17 words: repeated, joined, separate, missing and consumed values, end marker, positional arguments [time=60/900]
HARNESS(argument_sequences) {
    {
        int n = (int)vx_pick("arguments", 0, QT(4, 5));
        Argv a(n + 1);
        size_t limit = n <= 3 ? 16 : 12;
        for(int i = 1; i <= n; ++i) {
            const char *w = words[vx_pick("word", 0, limit)];
            memcpy(a.fresh(i, strlen(w)), w, strlen(w));
        }
        ArgParse p{U8String("text")};
        setup(p);
        p.permit_posargs();
        run(a, p, true);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 numbers around the limits of 64 bits with arbitrary last characters [time=60/300]
HARNESS(argument_numbers) {
    {
        static const char *const stems[] = {"92233720368547758", "-92233720368547758", "+1", "0", "18446744073709551", "-", "", "00000000000000000000"};
        const char *s = stems[vx_pick("stem", 0, 7)];
        size_t more = vx_pick("more", 0, QT(3, 4));
        Argv a(3);
        size_t n = strlen(s);
        memcpy(a.fresh(1, 5), "--big", 5);
        char *p = a.fresh(2, n + more);
        memcpy(p, s, n);
        for(size_t i = 0; i < more; ++i) {
            p[n + i] = (char)vx_u8("digit");
            vx_assume(p[n + i] != 0);
        }
        ArgParse parser{U8String("text")};
        setup(parser);
        run(a, parser, false);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 a parser that is used twice, command lines of up to 2 words each [time=60/300]
HARNESS(parse_twice) {
    {
        ArgParse p{U8String("text")};
        setup(p);
        p.permit_posargs();
        for(int round = 0; round < 2; ++round) {
            int n = (int)vx_pick("arguments", 0, 2);
            Argv a(n + 1);
            static const char *const few[] = {"-sq", "-aq", "-v", "w", "--"};
            for(int i = 1; i <= n; ++i) {
                const char *w = few[vx_pick("word", 0, 4)];
                memcpy(a.fresh(i, strlen(w)), w, strlen(w));
            }
            run(a, p, true);
        }
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 two options with names and spellings of up to 2 characters: clashes are refused [time=60/300]
HARNESS(option_clash) {
    {
        ArgParse p{U8String("text")};
        RawZ n0("name", 1), n1("name", 1), l0("long", vx_pick("n", 0, 2)), l1("long", vx_pick("n", 0, 2));
        char s0 = (char)vx_u8("short"), s1 = (char)vx_u8("short");
        Argument a, b;
        a.name = CString(n0.p);
        b.name = CString(n1.p);
        a.long_arg = CString(l0.p);
        b.long_arg = CString(l1.p);
        a.short_arg = s0;
        b.short_arg = s1;
        p.add_argument(move(a));
        bool same_long = l0.n == l1.n && l0.n > 0;
        for(size_t i = 0; i < l0.n && same_long; ++i) same_long &= l0.p[i] == l1.p[i];
        bool clash = (n0.p[0] == n1.p[0]) | same_long | ((s0 == s1) & (s0 != 0));
        bool r = refused([&] { p.add_argument(move(b)); });
        CHECK(r == clash, "an option that clashes with another is refused");
        vx_reach(r ? "clash" : "no clash");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C21 8 to 40 arguments of one of six mixtures with one out of 17 words anywhere (at five places) among them [time=60/300]
HARNESS(arguments_many) {
    {
        static const char *const mixes[6][5] = {{"-v", "w", "-i7", "-sx", "x"},     {"-aq", "-aq", "--ar=r", "-ax", "-a-"}, {"w", "-", "ww", "w", "q"},
                                                {"--s=1", "--s=2", "--i=3", "--no", "-xy"}, {"w", "-v", "--", "-v", "-z"},      {"--big=1", "-b2", "-b-3", "--i=-5", "-i20"}};
        const char *const *mix = mixes[vx_pick("mixture", 0, 5)];
        int n = (int)vx_pick("eighths", 1, 5) * 8;
        Argv a(n + 1);
        int at = 1 + (int)spot((size_t)n, "place");
        for(int i = 1; i <= n; ++i) {
            const char *w = i == at ? words[vx_pick("word", 0, 16)] : mix[i % 5];
            memcpy(a.fresh(i, strlen(w)), w, strlen(w));
        }
        ArgParse p{U8String("text")};
        setup(p);
        p.permit_posargs();
        run(a, p, true);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 values of 15 to 2049 characters (one arbitrary), joined, separate, appended, positional, after the end marker, and as the name of an option [time=60/300]
HARNESS(arguments_long) {
    {
        static const char *const prefix[] = {"-s", "--s=", "-a", "--ar=", "", "", "", "--", "-x"};
        static const char *const before[] = {nullptr, nullptr, nullptr, nullptr, "-s", nullptr, "--", nullptr, nullptr};
        size_t n = long_length(), form = vx_pick("form", 0, 8), at = spot(n), k = strlen(prefix[form]);
        int i = 1;
        Argv a(before[form] ? 3 : 2);
        if(before[form]) memcpy(a.fresh(i++, strlen(before[form])), before[form], strlen(before[form]));
        char *v = a.fresh(i, k + n);
        memcpy(v, prefix[form], k);
        letters(v + k, n);
        v[k + at] = (char)vx_u8("char");
        vx_assume(v[k + at] != 0);
        ArgParse p{U8String("text")};
        setup(p);
        p.permit_posargs();
        run(a, p, true);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C21 parsers with 1 to 40 options (every kind in turn), one (arbitrary) number given to each of them by its short or long spelling; defaults of the rest [time=60/300]
HARNESS(options_many) {
    {
        static const uint8_t sizes[] = {1, 2, 5, 9, 17, 33, 40};
        int n = sizes[vx_pick("options", 0, 6)];
        ArgParse p{U8String("text")};
        auto name = [](int i, const char *stem) {
            CString s(stem);
            s.append((char)('a' + i / 10));
            s.append((char)('a' + i % 10));
            return s;
        };
        for(int i = 0; i < n; ++i) {
            Argument a;
            a.name = name(i, "o");
            a.long_arg = name(i, "--option-");
            a.short_arg = (char)('0' + i);
            if(i == 61) a.short_arg = 0;
            switch(i % 4) {
            case 0:
                a.type = ArgumentType::Integer;
                a.default_value = ArgumentValue((int64_t)(i * 1000));
                break;
            case 1:
                a.default_value = ArgumentValue(name(i, "default"));
                a.help = U8String("some help");
                break;
            case 2:
                a.type = ArgumentType::Boolean;
                a.aaction = ArgumentAction::StoreTrue;
                a.default_value = ArgumentValue(false);
                break;
            default:
                a.type = ArgumentType::StringArray;
                a.aaction = ArgumentAction::AppendArray;
                a.default_value = ArgumentValue(Vector<CString>());
            }
            p.add_argument(move(a));
        }
        int which = (int)vx_pick("given", 0, 40);
        bool lng = vx_pick("long", 0, 1), help = which == 40 && lng;
        vx_assume(which < n || which == 40);
        Argv a(which < n || help ? 2 : 1);
        CString text = which < n ? (lng ? name(which, "--option-") : CString("-")) : CString("--help");
        char digit = (char)('0' + vx_range("digit", 0, 9));
        if(which < n) {
            if(!lng) text.append((char)('0' + which));
            if(which % 4 != 2) {
                if(lng) text.append('=');
                text.append(digit);
            }
        }
        if(a.argc == 2) memcpy(a.fresh(1, text.size()), text.c_str(), text.size());
        expected = help ? HELP : FINE;
        auto out = p.parse_args(a.argc, a.v);
        CHECK(bool(out), "parsed");
        for(int i = 0; i < n; ++i) {
            CString nm = name(i, "o");
            const ArgumentValue *v = out->value_of(nm.view());
            CHECK(v != nullptr, "a value or the default");
            bool g = i == which;
            switch(i % 4) {
            case 0: CHECK(v->get<int64_t>() == (g ? digit - '0' : i * 1000), "the number or the default"); break;
            case 1: {
                const CString &t = v->get<CString>();
                CString d = name(i, "default");
                CHECK(g ? t.size() == 1 && t[0] == digit : t == d, "the text or the default");
                break;
            }
            case 2: CHECK(v->get<bool>() == g, "set exactly when given"); break;
            default: {
                const auto &t = v->get<Vector<CString>>();
                CHECK(t.size() == (g ? 1 : 0), "the list or the default");
                if(g) CHECK(t[0].size() == 1 && t[0][0] == digit, "the list or the default");
            }
            }
        }
        vx_reach("values");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
