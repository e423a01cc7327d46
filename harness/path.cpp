// C22: Path.
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include "util.hpp"
//@unit repo=core,filesystem wrap=stat,rename
//@stub stat() and rename() are stand-ins with every kind of result

// Reference text.
struct Txt {
    char s[4300];
    size_t n = 0;
    void add(char c) { s[n++] = c; }
    void add(const char *p, size_t k) {
        for(size_t i = 0; i < k; ++i) add(p[i]);
    }
    void strip() {
        while(n > 1 && s[n - 1] == '/') --n;
    }
    size_t last(char c, size_t from = 0) const {
        for(size_t i = n; i > from; --i)
            if(vx_fork(s[i - 1] == c)) return i - 1;
        return (size_t)-1;
    }
    size_t name() const { return last('/') + 1; }
    size_t ext() const { return last('.', name() + 1); }
};
static void same(const char *text, size_t n, const Txt &t, size_t from, const char *label) {
    vx_assert(n == t.n - from, label);
    bool eq = true;
    for(size_t i = 0; i < n; ++i) eq &= text[i] == t.s[from + i];
    vx_assert(eq && text[n] == 0, label);
}
static void same(const Path &p, const Txt &t, const char *label, size_t from = 0) { same(p.c_str(), p.size(), t, from, label); }

// Everything about one path text.
static void all_about(const char *text, size_t len) {
    Txt t;
    t.add(text, len);
    t.strip();
    Path p(text);
    same(p, t, "trailing separators are dropped, the root is kept");
    same(Path(CString(text)), t, "trailing separators are dropped, the root is kept");
    CHECK(p.is_abs() == (t.n > 0 && t.s[0] == '/') && p.is_empty() == (t.n == 0), "absolute, empty");
    same(p.filename(), t, "the file name is the text after the last separator", t.name());
    size_t e = t.ext();
    {
        CString x = p.extension();
        same(x.c_str(), x.size(), t, e == (size_t)-1 ? t.n : e, "the extension is that of the last component");
        CString x2 = p.filename().extension();
        CHECK(x == x2, "the directory does not matter for the extension");
    }
    {
        auto parts = p.split();
        size_t k = 0, i = 0;
        while(i < t.n) {
            while(i < t.n && t.s[i] == '/') ++i;
            if(i == t.n) break;
            Txt w;
            while(i < t.n && t.s[i] != '/') w.add(t.s[i++]);
            vx_assert(k < parts.size(), "one piece per component");
            same(parts[k].c_str(), parts[k].size(), w, 0, "the pieces are the components");
            ++k;
        }
        CHECK(k == parts.size(), "one piece per component");
    }
    if(e != (size_t)-1) vx_reach("with extension");
    if(t.last('.') != (size_t)-1 && t.last('.') < t.name() && t.name()) vx_reach("dot in a directory name");
}
//@ C22 every path text of up to 7 (9) characters, replacement extensions of up to 2 (3) [time=60/900]
HARNESS(path_text) {
    {
        RawZ in("path", vx_pick("n", 0, QT(7, 9)));
        all_about(in.p, in.n);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C22 replacing the extension of every path of up to 6 (7) characters by every one of up to 2 (3) characters [time=60/900]
HARNESS(path_replace_extension) {
    {
        RawZ in("path", vx_pick("n", 0, QT(6, 7)));
        RawZ ne("extension", vx_pick("k", 0, QT(2, 3)));
        for(size_t i = 0; i < ne.n; ++i) vx_assume(ne.p[i] != '/');
        Path p(in.p);
        Txt t;
        t.add(in.p, in.n);
        t.strip();
        size_t e = t.ext();
        if(e != (size_t)-1) t.n = e;
        t.add(ne.p, ne.n);
        if(vx_fork(vx_sym("cstr", 1)))
            p.replace_extension(ne.p);
        else
            p.replace_extension(CStringView(ne.p, ne.n));
        same(p, t, "exactly the extension of the last component is replaced");
        e = t.ext();
        CString x = p.extension();
        same(x.c_str(), x.size(), t, e == (size_t)-1 ? t.n : e, "the new extension is read back");
        Path q = p / "x";
        CHECK(q.filename().size() == 1, "the result can be joined");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C22 paths of up to 6 (7) characters whose extension is replaced by, or which are joined with, a part of their own text [time=60/600]
HARNESS(path_own_text) {
    {
        RawZ in("path", vx_pick("n", 1, QT(6, 7)));
        Path p(in.p);
        Txt t, own;
        t.add(in.p, in.n);
        t.strip();
        size_t from = vx_pick("from", 0, t.n);
        if(vx_pick("extension", 0, 1)) {
            size_t to = vx_pick("to", from, t.n);
            for(size_t i = from; i < to; ++i) vx_assume(in.p[i] != '/');
            own.add(in.p + from, to - from);
            size_t e = t.ext();
            if(e != (size_t)-1) t.n = e;
            t.add(own.s, own.n);
            p.replace_extension(CStringView(p.c_str() + from, to - from));
            same(p, t, "exactly the extension of the last component is replaced");
        } else {
            own.add(t.s + from, t.n - from);
            if(own.n > 0 && own.s[0] == '/') t = own;
            else {
                if(own.n > 0 && t.s[t.n - 1] != '/') t.add('/');
                t.add(own.s, own.n);
            }
            p = p / (p.c_str() + from);
            same(p, t, "an absolute right side replaces the left, otherwise they are joined by one separator");
        }
        vx_reach("done");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C22 joining every two paths of up to 4 (5) and 3 (4) characters, all three overloads [time=60/900]
HARNESS(path_join) {
    {
        RawZ a("left", vx_pick("n", 0, QT(4, 5)));
        RawZ b("right", vx_pick("m", 0, QT(3, 4)));
        Txt t, u;
        t.add(a.p, a.n);
        t.strip();
        u.add(b.p, b.n);
        u.strip();
        Path p(a.p), o(b.p);
        Path r = [&] {
            switch(vx_pick("overload", 0, 2)) {
            case 0: return p / o;
            case 1: return p / b.p;
            default: return p / CString(b.p);
            }
        }();
        same(p, t, "the operands are not changed");
        same(o, u, "the operands are not changed");
        bool whole = t.n == 0 || (u.n > 0 && u.s[0] == '/');
        if(whole) t = u;
        else {
            if(u.n > 0 && t.s[t.n - 1] != '/') t.add('/');
            t.add(u.s, u.n);
        }
        same(r, t, "an absolute right side replaces the left, otherwise they are joined by one separator");
        if(u.n && u.s[0] != '/') {
            Path f = r.filename(), g = o.filename();
            same(f, u, "the file name is that of the right side", u.name());
            CHECK(f.size() == g.size(), "the file name is that of the right side");
            vx_reach("joined");
        }
        Path s = r;
        same(s, t, "copies are equal");
        Path v = move(s);
        same(v, t, "moves carry the text");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

static const char *expect_path;
static int stat_kind, stat_calls, rename_calls, rename_result;
static const char *rename_from, *rename_to_;
extern "C" int __wrap_stat(const char *path, struct stat *sb) {
    ++stat_calls;
    vx_assert(!strcmp(path, expect_path), "the path itself is looked up");
    if(stat_kind < 0) {
        errno = ENOENT;
        return -1;
    }
    static const mode_t modes[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK};
    memset(sb, 0, sizeof(*sb));
    sb->st_mode = modes[stat_kind] | (vx_u8("permissions") & 0777);
    return 0;
}
extern "C" int __wrap_rename(const char *from, const char *to) {
    ++rename_calls;
    vx_assert(!strcmp(from, rename_from) && !strcmp(to, rename_to_), "renamed from the path to the target");
    if(rename_result) errno = EACCES;
    return rename_result;
}

//@ C22 every file type or lookup failure, every result of the rename call [time=20/60]
HARNESS(path_lookup) {
    {
        Path a("d/a"), b("e/b");
        stat_kind = (int)vx_pick("kind", 0, 7) - 1;
        expect_path = "d/a";
        CHECK(a.exists() == (stat_kind >= 0), "exists exactly when the lookup works");
        CHECK(a.is_file() == (stat_kind == 0), "file exactly when a regular file");
        CHECK(a.is_dir() == (stat_kind == 1), "directory exactly when one");
        expect_path = "e/b";
        rename_from = "d/a";
        rename_to_ = "e/b";
        rename_result = vx_fork(vx_sym("rename fails", 1)) ? -1 : 0;
        bool done = a.rename_to(b);
        CHECK(rename_calls == (stat_kind == 1 ? 0 : 1), "never renamed onto a directory");
        CHECK(done == (stat_kind != 1 && rename_result == 0), "success is reported exactly when it was renamed");
        vx_reach(done ? "renamed" : "not renamed");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

// A text of letters with separators at regular distances.
static void long_path(char *p, size_t n, size_t gap) {
    letters(p, n);
    for(size_t i = gap; i < n; i += gap) p[i] = '/';
    p[n] = 0;
}
//@ C22 path texts of 15 to 2049 characters, components of 1 to 300 characters, two arbitrary characters in five places each [time=60/300]
HARNESS(path_long) {
    {
        static const uint16_t gaps[] = {2, 9, 60, 301};
        size_t n = long_length();
        char *p = (char *)malloc(n + 1);
        long_path(p, n, gaps[vx_pick("gap", 0, 3)]);
        size_t a = spot(n), b = spot(n);
        vx_assume(a <= b);
        const size_t ab[] = {a, b};
        for(size_t i : ab) {
            p[i] = (char)vx_u8("c");
            vx_assume(p[i] != 0);
        }
        all_about(p, n);
        free(p);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C22 joining paths of 15 to 2049 and 1 to 300 characters, replacing their extensions (new extension of 0 to 300 characters) [time=60/300]
HARNESS(path_join_long) {
    {
        static const uint16_t short_[] = {1, 8, 15, 16, 17, 40, 300};
        size_t n = long_length(), k = short_[vx_pick("k", 0, 6)];
        char *p = (char *)malloc(n + 1), *q = (char *)malloc(k + 1);
        long_path(p, n, 33);
        long_path(q, k, 12);
        if(vx_pick("swap", 0, 1)) {
            char *t = p;
            p = q;
            q = t;
            size_t z = n;
            n = k;
            k = z;
        }
        p[n - 1] = (char)vx_u8("last");
        q[0] = (char)vx_u8("first");
        vx_assume(p[n - 1] != 0 && q[0] != 0);
        static Txt t, u;
        t.add(p, n);
        t.strip();
        u.add(q, k);
        u.strip();
        Path a(p), b(q);
        if(vx_pick("extension", 0, 1)) {
            for(size_t i = 0; i < k; ++i)
                if(q[i] == '/') q[i] = '.';
            size_t e = t.ext();
            if(e != (size_t)-1) t.n = e;
            t.add(q, k);
            a.replace_extension(CStringView(q, k));
            same(a, t, "exactly the extension of the last component is replaced");
        } else {
            Path r = vx_pick("overload", 0, 1) ? a / b : a / q;
            if(t.n == 0 || (u.n > 0 && u.s[0] == '/')) t = u;
            else {
                if(u.n > 0 && t.s[t.n - 1] != '/') t.add('/');
                t.add(u.s, u.n);
            }
            same(r, t, "an absolute right side replaces the left, otherwise they are joined by one separator");
            same(b, u, "the operands are not changed");
        }
        vx_reach("done");
        free(p);
        free(q);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
