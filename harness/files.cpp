// C24: reading files.
//@unit repo=core,filesystem wrap=fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat
//@stub the stdio calls are stand-ins over a symbolic file that may fail at any step (open, seek, tell, read) and may shrink or be a directory
#include "filemodel.hpp"

static void setup(const Raw &r) {
    fake.data = r.p;
    fake.size = r.n;
}
static void closed() {
    CHECK(!fake.open && opens == closes, "the file is closed exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
static size_t line_end(const Raw &r, size_t from) {
    size_t e = from;
    while(e < r.n && r.p[e] != '\n') ++e;
    return e < r.n ? e + 1 : e;
}
static void same_line(const Bytes &b, const Raw &r, size_t from, size_t to) {
    vx_assert(b.size() == to - from, "a line is what lies up to and including the newline");
    bool eq = true;
    for(size_t i = from; i < to; ++i) eq &= b[i - from] == r.p[i];
    vx_assert(eq, "the bytes of the line are those of the file");
}

//@ C24 line by line iteration over every file of up to 7 (9) bytes, a failure at any step [time=60/900]
HARNESS(file_lines) {
    {
    Raw r("byte", vx_pick("n", 0, QT(7, 9)));
    setup(r);
    may_fail = vx_fork(vx_sym("faults", 1));
    size_t from = 0;
    bool done = false;
    bool fail = refused([&] {
        File f("file", "rb");
        for(Bytes &&line : f) {
            vx_assert(from < r.n, "no line after the end");
            size_t to = line_end(r, from);
            same_line(line, r, from, to);
            if(vx_fork(vx_sym("take", 1))) Bytes mine(move(line));
            from = to;
        }
        vx_assert(f.eof(), "the end of the file is recognised");
        done = true;
    });
    CHECK(fail == (failures > 0), "a failure is an exception, and nothing else is");
    CHECK(done == !fail && (fail || from == r.n), "every byte of the file is in some line");
    vx_reach(fail ? "failed" : "iterated");
    }
    closed();
}

//@ C24 single line reads from every file of up to 6 (8) bytes, a failure at any step [time=60/900]
HARNESS(file_readline) {
    {
        Raw r("byte", vx_pick("n", 0, QT(6, 8)));
        setup(r);
        may_fail = vx_fork(vx_sym("faults", 1));
        size_t from = 0;
        bool fail = refused([&] {
            File f("file", "r");
            vx_assert(!f.eof(), "not at the end before reading");
            for(int i = 0; i < QT(3, 4); ++i) {
                Bytes line = f.readline_bytes();
                size_t to = line_end(r, from);
                same_line(line, r, from, to);
                if(to == from || r.p[to - 1] != '\n') vx_assert(f.eof(), "the end of the file is recognised");
                from = to;
            }
        });
        CHECK(fail == (failures > 0), "a failure is an exception, and nothing else is");
        vx_reach(fail ? "failed" : "read");
    }
    closed();
}

// Reference for text: valid UTF-8 without zero bytes.
static bool is_text(const Raw &r) {
    size_t i = 0;
    while(i < r.n) {
        unsigned c = (unsigned char)r.p[i];
        unsigned len = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
        if(c == 0 || !len || i + len > r.n) return false;
        unsigned cp = len == 1 ? c : c & (0x7f >> len);
        for(unsigned k = 1; k < len; ++k) {
            unsigned d = (unsigned char)r.p[i + k];
            if((d & 0xc0) != 0x80) return false;
            cp = cp << 6 | (d & 0x3f);
        }
        if(len == 3 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) return false;
        if(len == 4 && (cp < 0x10000 || cp > 0x10ffff)) return false;
        i += len;
    }
    return true;
}

//@ C24 loading every file of up to 5 (6) bytes as bytes and as text, a failure at any step, shrinking files and directories [time=60/900]
HARNESS(file_load) {
    {
        Raw r("byte", vx_pick("n", 0, QT(5, 6)));
        setup(r);
        bool trouble = false;
        switch(vx_pick("case", 0, 3)) {
        case 1: may_fail = true; break;
        case 2: extra_size = vx_pick("shrunk by", 1, 2); trouble = true; break;
        case 3: is_a_directory = true; trouble = true; if(vx_fork(vx_sym("small", 1))) directory_size = 4096; break;
        }
        Path p("file");
        bool text = vx_fork(vx_sym("as text", 1));
        bool got = false;
        if(text) {
            auto t = p.load_text();
            got = bool(t);
            if(got) {
                vx_assert(t->size_bytes() == r.n, "the text is the contents");
                bool eq = true;
                for(size_t i = 0; i < r.n; ++i) eq &= t->c_str()[i] == r.p[i];
                vx_assert(eq, "the text is the contents");
            }
        } else {
            auto b = p.load_bytes();
            got = bool(b);
            if(got) same_line(*b, r, 0, r.n);
        }
        // A size that is too large is only noticed when there is something to read.
        bool expect = !trouble && failures == 0;
        if(text && expect) expect = is_text(r);
        CHECK(got == expect, "contents exactly when every step worked");
        vx_reach(got ? "loaded" : "refused");
    }
    closed();
}

// Letters with newlines at regular distances; some arbitrary bytes.
static void long_contents(Raw &r) {
    static const uint16_t gaps[] = {1, 2, 60, 255, 256, 257, 1023, 4095, 4096, 4097, 60000};
    letters(r.p, r.n);
    size_t gap = gaps[vx_pick("line", 0, 10)];
    for(size_t i = gap - 1; i < r.n; i += gap) r.p[i] = '\n';
}
static const uint16_t file_sizes[] = {100, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 20000};
//@ C24 iteration and single line reads over files of 100 to 8193 (20000) bytes with lines of 1 to 4097 bytes or one long line, an arbitrary byte in five
//@ places, a read that fails at one of five places [flags=--steps 60000000] [time=100/600]
HARNESS(file_lines_long) {
    {
        Raw r(file_sizes[vx_pick("n", 0, QT(13, 14))]);
        long_contents(r);
        size_t at = spot(r.n);
        if(vx_pick("fault", 0, 1)) fail_reading_at = at;
        else r.p[at] = (char)vx_u8("byte");
        setup(r);
        size_t from = 0;
        bool iterate = vx_pick("iterate", 0, 1);
        auto line_is = [&](const Bytes &line) {
            size_t to = from;
            while(to < r.n && vx_fork(r.p[to] != '\n')) ++to;
            if(to < r.n) ++to;
            vx_assert(line.size() == to - from && same_bytes(line.data(), r.p + from, to - from), "a line is what lies up to and including the newline");
            from = to;
        };
        bool fail = refused([&] {
            File f("file", "rb");
            if(iterate) {
                for(Bytes &&line : f) line_is(line);
            } else {
                while(from < r.n) line_is(f.readline_bytes());
                vx_assert(f.readline_bytes().is_empty() && f.eof(), "the end of the file is recognised");
            }
        });
        CHECK(fail == (fail_reading_at < r.n), "a failure is an exception, and nothing else is");
        CHECK(fail ? from <= at : from == r.n, "every byte of the file is in some line");
        vx_reach(fail ? "failed" : "read");
    }
    closed();
}
//@ C24 loading files of 100 to 20000 bytes as bytes and as text, an arbitrary byte in five places, a read that fails at one of them, a file that
//@ has shrunk [flags=--steps 60000000] [time=60/300]
HARNESS(file_load_long) {
    {
        Raw r(file_sizes[vx_pick("n", 0, 14)]);
        letters(r.p, r.n);
        size_t at = spot(r.n);
        unsigned trouble = (unsigned)vx_pick("trouble", 0, 2);
        unsigned char byte = 'x';
        if(trouble == 1) fail_reading_at = at;
        else r.p[at] = (char)(byte = vx_u8("byte"));
        if(trouble == 2) extra_size = vx_pick("shrunk by", 1, 2) * 100;
        setup(r);
        Path p("file");
        bool got, expect = trouble == 0;
        if(vx_pick("as text", 0, 1)) {
            auto t = p.load_text();
            got = bool(t);
            expect = expect && vx_fork((byte != 0) & (byte < 0x80));
            if(got) vx_assert(t->size_bytes() == r.n && same_bytes(t->c_str(), r.p, r.n), "the text is the contents");
        } else {
            auto b = p.load_bytes();
            got = bool(b);
            if(got) vx_assert(b->size() == r.n && same_bytes(b->data(), r.p, r.n), "the bytes are the contents");
        }
        CHECK(got == expect, "contents exactly when every step worked");
        vx_reach(got ? "loaded" : "refused");
    }
    closed();
}
