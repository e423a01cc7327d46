// C23: glob patterns over a symbolic directory tree.
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include "util.hpp"
//@unit repo=core,filesystem wrap=opendir,readdir,closedir,stat,lstat
//@stub opendir, readdir, closedir, stat and lstat are stand-ins over a symbolic directory tree; a directory may refuse to open

enum { NAMELEN = 255, MAXNODES = 80, MAXPATH = 2000 };
enum Kind { FILE_, DIR_, LINK_DIR, LINK_FILE };
struct Node {
    char name[NAMELEN + 1];
    unsigned kind = FILE_; // symbolic: only decided where it matters
    int parent = -1;
    bool readable = true, typed = true;
};
static Node nodes[MAXNODES];
static int num_nodes;
static size_t known_length[MAXNODES]; // at least this many characters of the name are copied
static const char *root_path = "r";
struct Handle {
    int dir, pos;
    bool open;
    dirent e;
};
static int open_handles;

static bool is_dir(int n) { return (nodes[n].kind == DIR_) | (nodes[n].kind == LINK_DIR); }
// The path of a node, as the library is expected to spell it.
static size_t path_of(int n, char *out) {
    size_t k = 0;
    if(nodes[n].parent >= 0) {
        k = path_of(nodes[n].parent, out);
        if(k && out[k - 1] != '/') out[k++] = '/';
        for(size_t i = 0; nodes[n].name[i]; ++i) out[k++] = nodes[n].name[i];
    } else
        for(; root_path[k]; ++k) out[k] = root_path[k];
    out[k] = 0;
    return k;
}
static int find_path(const char *p) {
    for(int i = 0; i < num_nodes; ++i) {
        char b[MAXPATH];
        path_of(i, b);
        if(!strcmp(b, p)) return i;
    }
    if(!root_path[0] && p[0] == '.' && !p[1]) return 0;
    return -1;
}
extern "C" DIR *__wrap_opendir(const char *path) {
    int n = find_path(path);
    vx_assert(n >= 0, "only existing paths are opened");
    if(!is_dir(n) || !nodes[n].readable) {
        errno = EACCES;
        return nullptr;
    }
    Handle *h = (Handle *)malloc(sizeof(Handle));
    h->dir = n;
    h->pos = -2;
    h->open = true;
    ++open_handles;
    return (DIR *)h;
}
extern "C" dirent *__wrap_readdir(DIR *d) {
    Handle *h = (Handle *)d;
    vx_assert(h->open, "only open directories are read");
    memset(&h->e, 0, sizeof(h->e));
    if(h->pos < 0) {
        strcpy(h->e.d_name, h->pos == -2 ? "." : "..");
        h->e.d_type = DT_DIR;
        ++h->pos;
        return &h->e;
    }
    while(h->pos < num_nodes && nodes[h->pos].parent != h->dir) ++h->pos;
    if(h->pos >= num_nodes) return nullptr;
    const Node &n = nodes[h->pos++];
    for(size_t i = 0;; ++i) {
        h->e.d_name[i] = n.name[i];
        if(i >= known_length[h->pos - 1]) break;
    }
    h->e.d_type = (unsigned char)vx_ite(
        !n.typed, DT_UNKNOWN, vx_ite(n.kind == FILE_, DT_REG, vx_ite(n.kind == DIR_, DT_DIR, DT_LNK)));
    return &h->e;
}
extern "C" int __wrap_closedir(DIR *d) {
    Handle *h = (Handle *)d;
    vx_assert(h->open, "closed once");
    --open_handles;
    free(h);
    return 0;
}
static int do_stat(const char *path, struct stat *sb, bool follow) {
    int n = find_path(path);
    vx_assert(n >= 0, "only existing paths are looked up");
    memset(sb, 0, sizeof(*sb));
    bool link = nodes[n].kind >= LINK_DIR;
    sb->st_mode = (mode_t)vx_ite(link & !follow, S_IFLNK, vx_ite(is_dir(n), S_IFDIR, S_IFREG));
    return 0;
}
extern "C" int __wrap_stat(const char *path, struct stat *sb) { return do_stat(path, sb, true); }
extern "C" int __wrap_lstat(const char *path, struct stat *sb) { return do_stat(path, sb, false); }

// Reference: does the pattern describe the whole name?  Works on formulas, without forking.
static bool describes(const char *pat, size_t pn, const char *name, size_t nn) {
    static bool m[NAMELEN + 1][NAMELEN + 1];
    for(size_t i = 0; i <= nn; ++i)
        for(size_t j = 0; j <= pn; ++j) {
            bool r = i == 0 && j == 0;
            if(j) {
                bool star = pat[j - 1] == '*', any = pat[j - 1] == '?';
                bool skip = star & m[i][j - 1];
                bool more = i ? star & m[i - 1][j] : false;
                bool one = i ? (any | (!star & (pat[j - 1] == name[i - 1]))) & m[i - 1][j - 1] : false;
                r = skip | more | one;
            }
            m[i][j] = r;
        }
    bool hidden = nn && name[0] == '.';
    return m[nn][pn] & (!hidden | (pn && pat[0] == '.'));
}

//@ C23 every name of up to 5 (6) characters against every pattern component of up to 5 (6) characters [time=60/900] [reach-=found]
HARNESS(glob_name) {
    {
        RawZ name("name", vx_pick("n", 1, QT(5, 6)));
        RawZ pat("pattern", vx_pick("m", 1, QT(5, 6)));
        for(size_t i = 0; i < name.n; ++i) vx_assume(name.p[i] != '/');
        for(size_t i = 0; i < pat.n; ++i) vx_assume(pat.p[i] != '/');
        if(name.n <= 2) {
            bool dots = true;
            for(size_t i = 0; i < name.n; ++i) dots &= name.p[i] == '.';
            vx_assume(!dots);
        }
        bool twostar = false;
        for(size_t i = 1; i < pat.n; ++i) twostar |= (pat.p[i] == '*') & (pat.p[i - 1] == '*');
        bool recursive = pat.n == 2 && twostar;
        num_nodes = 2;
        nodes[0].kind = DIR_;
        nodes[1].parent = 0;
        known_length[1] = name.n;
        for(size_t i = 0; i <= name.n; ++i) nodes[1].name[i] = name.p[i];
        Path p("r");
        bool r = refused([&] {
            GlobResult g = p.glob(pat.p);
            bool found = false;
            while(auto f = g.next()) {
                vx_assert(!found, "reported once");
                found = true;
                const char *s = f->c_str();
                bool same = f->size() == name.n + 2 && s[0] == 'r' && s[1] == '/';
                vx_assert(same, "the path of the entry");
                for(size_t i = 0; i <= name.n; ++i) same &= s[2 + i] == name.p[i];
                vx_assert(same, "the path of the entry");
            }
            bool expect = recursive ? name.p[0] != '.' : describes(pat.p, pat.n, name.p, name.n);
            vx_assert(found == expect, "a name is reported exactly when the pattern describes it");
            vx_reach(found ? "match" : "no match");
        });
        CHECK(r == (twostar & !recursive), "two stars in a component are refused, everything else is accepted");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

// ---------------------------------------------------------------- trees
static const char *const components[] = {"a", "*", "?", ".*", "a*", "**"};
struct Expected {
    int count[MAXNODES] = {};
} static want;
static int part[4], num_parts;
static bool one_matches(int c, const Node &n) {
    size_t k = strlen(n.name);
    return describes(components[c], strlen(components[c]), n.name, k);
}
// Marks every node that the parts from k on describe below the directory d.
static void expand(int d, int k) {
    if(!nodes[d].readable) return;
    if(part[k] == 5) {
        if(k + 1 < num_parts) expand(d, k + 1);
        for(int i = 1; i < num_nodes; ++i)
            if(nodes[i].parent == d && nodes[i].name[0] != '.') {
                if(k + 1 == num_parts) want.count[i] = 1;
                if(nodes[i].kind == DIR_) expand(i, k);
            }
        return;
    }
    for(int i = 1; i < num_nodes; ++i)
        if(nodes[i].parent == d && one_matches(part[k], nodes[i])) {
            if(k + 1 == num_parts) want.count[i] = 1;
            else if(is_dir(i)) expand(i, k + 1);
        }
}
static void run_tree(const char *pattern) {
    expand(0, 0);
    static int got[MAXNODES] = {};
    {
        Path p(root_path);
        GlobResult g = p.glob(pattern);
        while(auto f = g.next()) {
            int n = find_path(f->c_str());
            vx_assert(n > 0, "only existing paths are reported");
            ++got[n];
        }
        vx_assert(!g.next(), "the end is final");
    }
    for(int i = 1; i < num_nodes; ++i) {
        vx_assert(got[i] <= 1, "each path once");
        vx_assert(got[i] == want.count[i], "exactly the paths that match component by component");
        if(got[i]) vx_reach("found");
    }
    CHECK(open_handles == 0, "every directory is closed");
}
static void make_pattern(char *out, int max_parts) {
    num_parts = (int)vx_pick("parts", 1, max_parts);
    size_t k = 0;
    int stars = 0;
    for(int i = 0; i < num_parts; ++i) {
        part[i] = (int)vx_pick("component", 0, 5);
        stars += part[i] == 5;
        if(i) out[k++] = '/';
        for(const char *c = components[part[i]]; *c; ++c) out[k++] = *c;
    }
    out[k] = 0;
    vx_assume(stars <= 1);
}
static void set_name(int i, const char *p) {
    strcpy(nodes[i].name, p);
    known_length[i] = strlen(p);
}
static void make_tree(int max_nodes, bool odd) {
    static const char *const names[] = {"a", "b", "ab", ".h"};
    num_nodes = 1 + (int)vx_pick("nodes", 0, max_nodes);
    nodes[0].kind = DIR_;
    for(int i = 1; i < num_nodes; ++i) {
        Node &n = nodes[i];
        // parents come before their children
        n.parent = (int)vx_pick("parent", i > 1 ? nodes[i - 1].parent : 0, i - 1);
        vx_assume(is_dir(n.parent));
        set_name(i, names[vx_pick("name", 0, 3)]);
        for(int j = 1; j < i; ++j)
            if(nodes[j].parent == n.parent) vx_assume(strcmp(nodes[j].name, n.name) < 0);
        n.kind = (unsigned)vx_sym("kind", odd ? 2 : 1);
        if(odd) {
            n.typed = vx_sym("typed", 1);
            n.readable = vx_sym("readable", 1);
        }
    }
}

//@ C23 every tree of up to 3 (4) entries over 4 names, every pattern of up to 3 components out of six [time=60/900]
HARNESS(glob_tree) {
    {
        make_tree(QT(3, 4), false);
        char pattern[32];
        make_pattern(pattern, 3);
        if(num_nodes < 4) root_path = vx_fork(vx_sym("current directory", 1)) ? "" : "r";
        run_tree(pattern);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C23 trees of up to 2 (3) entries with links, unreadable directories and file systems without entry types, patterns of up to 2 (3) components [time=60/900]
HARNESS(glob_tree_odd) {
    {
        make_tree(QT(2, 3), true);
        char pattern[32];
        make_pattern(pattern, QT(2, 3));
        root_path = "/";
        nodes[0].readable = vx_sym("root readable", 1);
        run_tree(pattern);
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C23 a search that is abandoned or moved in the middle [time=20/60]
HARNESS(glob_abandoned) {
    {
        make_tree(2, false);
        char pattern[] = "**/*";
        Path p(root_path);
        GlobResult g = p.glob(pattern);
        size_t some = vx_pick("entries read", 0, 2);
        for(size_t i = 0; i < some; ++i) g.next();
        if(vx_fork(vx_sym("move", 1))) {
            GlobResult h(move(g));
            CHECK(!g.next(), "nothing comes from a search that was moved away");
            size_t rest = 0;
            while(h.next()) ++rest;
            CHECK(rest <= 2, "the search goes on in its new owner");
            g = move(h);
        }
        if(vx_fork(vx_sym("replace", 1))) {
            g = p.glob("*");
            g.next();
        }
        vx_reach("abandoned search");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C23 patterns that are refused: empty, only separators, two recursive components [time=20/60]
HARNESS(glob_refused) {
    {
        static const char *const bad[] = {"", "/", "//", "**/a/**", "a**", "**/**", "a/**b", "***"};
        num_nodes = 1;
        nodes[0].kind = DIR_;
        Path p("r");
        bool r = refused([&] {
            GlobResult g = p.glob(bad[vx_pick("pattern", 0, 7)]);
            while(g.next()) {}
        });
        CHECK(r, "refused");
        vx_reach("refused");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C23 a name of 16 to 255 characters (one arbitrary), the pattern is the name with one part replaced by stars, question marks or left out
//@ [time=100/300] [reach-=found]
HARNESS(glob_name_long) {
    {
        static const uint8_t lens[] = {16, 17, 31, 33, 64, 100, 128, 255};
        size_t n = lens[vx_pick("n", 0, 7)];
        static char name[256], pat[256];
        letters(name, n);
        memcpy(pat, name, n);
        size_t at = spot(n), m = n;
        if(vx_pick("symbolic name", 0, 1)) {
            name[at] = (char)vx_u8("c");
            vx_assume(name[at] != 0 && name[at] != '/');
        } else {
            pat[at] = (char)vx_u8("c");
            vx_assume(pat[at] != 0 && pat[at] != '/');
        }
        static const uint8_t froms[] = {0, 1, 7}, widths[] = {0, 1, 9};
        size_t from = froms[vx_pick("from", 0, 2)], width = widths[vx_pick("width", 0, 2)];
        if(vx_pick("at end", 0, 1)) from = n - from - width;
        switch(vx_pick("how", 0, 2)) {
        case 0:
            for(size_t i = 0; i < width; ++i) pat[from + i] = '?';
            break;
        case 1: // a star for the part
            if(width) {
                pat[from] = '*';
                for(size_t i = from + width; i < n; ++i) pat[i + 1 - width] = pat[i];
                m = n + 1 - width;
                // two stars next to each other are something else
                if(from + 1 < m) vx_assume(pat[from + 1] != '*');
                if(from) vx_assume(pat[from - 1] != '*');
            }
            break;
        default:
            for(size_t i = from + width; i < n; ++i) pat[i - width] = pat[i];
            m = n - width;
        }
        pat[m] = 0;
        num_nodes = 2;
        nodes[0].kind = DIR_;
        nodes[1].parent = 0;
        known_length[1] = n;
        for(size_t i = 0; i < n; ++i) nodes[1].name[i] = name[i];
        bool found = false;
        {
            Path p("r");
            GlobResult g = p.glob(pat);
            while(auto f = g.next()) {
                vx_assert(!found && f->size() == n + 2 && !memcmp(f->c_str() + 2, name, n), "the path of the entry, once");
                found = true;
            }
        }
        vx_assert(found == describes(pat, m, name, n), "a name is reported exactly when the pattern describes it");
        vx_reach(found ? "match" : "no match");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C23 a directory of 10 to 60 entries (files and directories with one file each in turn, one of arbitrary kind), seven patterns [time=60/300]
HARNESS(glob_wide) {
    {
        static const char *const patterns[] = {"*", "**", "**/x", "*/x", "e3?", "*7/x", "**/*"};
        static const uint8_t sizes[] = {10, 17, 33, 60};
        int n = sizes[vx_pick("n", 0, 3)], which = (int)vx_pick("pattern", 0, 6);
        bool dirs = vx_pick("directories", 0, 1);
        nodes[0].kind = DIR_;
        num_nodes = 1;
        for(int i = 0; i < n; ++i) {
            char b[4] = {'e', (char)('0' + i / 10), (char)('0' + i % 10), 0};
            int d = num_nodes++;
            nodes[d].parent = 0;
            set_name(d, b);
            if(dirs && i % 5 == 2) {
                nodes[d].kind = DIR_;
                if(i == 7) nodes[d].kind = (unsigned)vx_sym("kind", 2);
                if(nodes[d].kind == DIR_ || nodes[d].kind == LINK_DIR) {
                    int e = num_nodes++;
                    nodes[e].parent = d;
                    set_name(e, "x");
                }
            }
        }
        static int got[MAXNODES];
        {
            Path p("r");
            GlobResult g = p.glob(patterns[which]);
            while(auto f = g.next()) {
                int k = find_path(f->c_str());
                vx_assert(k > 0, "only existing paths are reported");
                ++got[k];
            }
        }
        for(int i = 1; i < num_nodes; ++i) {
            const Node &e = nodes[i];
            bool inner = e.parent > 0, link = inner && nodes[e.parent].kind == LINK_DIR, w = false;
            switch(which) {
            case 0: w = !inner; break;
            case 1: w = !link; break;
            case 2: w = inner && !link; break;
            case 3: w = inner; break;
            case 4: w = !inner && e.name[1] == '3'; break;
            case 5: w = inner && nodes[e.parent].name[2] == '7'; break;
            default: w = !link; break;
            }
            vx_assert(got[i] == (w ? 1 : 0), "exactly the paths that match component by component, each once");
        }
        vx_reach("found");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C23 a chain of 1 to 30 nested directories with names of 1 to 40 characters and a file x in each, reached by name, by stars and by the recursive
//@ component [flags=--steps 60000000] [time=60/300] [reach-=found]
HARNESS(glob_deep) {
    {
        static const uint8_t depths[] = {1, 2, 5, 15, 30}, lens[] = {1, 15, 40};
        int n = depths[vx_pick("depth", 0, 4)], how = (int)vx_pick("how", 0, 3);
        size_t len = lens[vx_pick("length", 0, 2)];
        nodes[0].kind = DIR_;
        num_nodes = 1;
        char name[48] = {};
        letters(name, len);
        int d = 0;
        static char pattern[2000];
        size_t k = 0;
        for(int i = 0; i < n; ++i) {
            int f = num_nodes++;
            nodes[f].parent = d;
            set_name(f, "x");
            int e = num_nodes++;
            nodes[e].parent = d;
            nodes[e].kind = DIR_;
            set_name(e, name);
            d = e;
            if(how == 0) {
                memcpy(pattern + k, name, len);
                k += len;
            } else
                pattern[k++] = '*';
            pattern[k++] = '/';
        }
        int f = num_nodes++;
        nodes[f].parent = d;
        set_name(f, "x");
        char c = (char)vx_u8("c");
        vx_assume(c != 0 && c != '/' && c != '.');
        nodes[f].name[0] = c;
        if(how >= 2) {
            memcpy(pattern, "**/", 3);
            k = 3;
        }
        pattern[k++] = how == 3 ? '*' : 'x';
        pattern[k] = 0;
        int total = 0, at_end = 0;
        {
            Path p("r");
            GlobResult g = p.glob(pattern);
            while(auto r = g.next()) {
                ++total;
                size_t want = 1 + (size_t)n * (len + 1) + 2;
                if(r->size() == want) {
                    at_end += r->c_str()[want - 1] == c;
                    for(int i = 0; i < n; ++i) vx_assert(!memcmp(r->c_str() + 2 + (size_t)i * (len + 1), name, len), "the whole path");
                }
            }
        }
        bool x = c == 'x';
        switch(how) {
        case 0:
        case 1: CHECK(total == x && at_end == x, "the file at the bottom"); break;
        case 2: CHECK(total == n + x && at_end == x, "all files of the name"); break;
        default: CHECK(total == 2 * n + 1 && at_end == 1, "everything");
        }
        vx_reach("done");
    }
    CHECK(open_handles == 0, "every directory is closed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
