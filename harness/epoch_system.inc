static void show(const Path &p) {
    t.text(p.c_str());
    t.out(p.size());
}
static void show(const Optional<Path> &p) {
    t.out((bool)p);
    if(p) show(*p);
}
static void show(const Vector<CString> &v) {
    t.out(v.size());
    for(const auto &i : v) show(i);
}

// ---- paths as texts
static void path_text() {
    w = World();
    size_t n = t.pick("size", 0, QT(7, 9));
    Blk b("byte", n, true);
    t.what = "Path";
    Path p(b.p);
    show(p);
    Path q{CString(b.p)};
    show(q);
    t.out(p.is_empty());
    op("Path::is_abs", [&] { t.out(p.is_abs()); });
    op("Path::extension", [&] { show(p.extension()); });
    op("Path::filename", [&] { show(p.filename()); });
    op("Path::split", [&] { show(p.split()); });
    op("Path::replace_extension", [&] {
        static const char *const ext[] = {"", ".x", "long", "."};
        Path r(p);
        if(t.pick("kind", 0, 1)) r.replace_extension(ext[t.pick("extension", 0, 3)]);
        else r.replace_extension(CStringView(".ab/c", 3));
        show(r);
    });
    op("default Path", [&] { Path d; show(d); t.out(d.is_abs()); show(d.filename()); show(d.extension()); d.replace_extension(".x"); show(d); });
    same_world();
}
static void path_join() {
    w = World();
    Blk a("left", t.pick("size", 0, QT(4, 6)), true), b("right", t.pick("size", 0, QT(4, 6)), true);
    Path l(a.p), r(b.p);
    switch(t.pick("kind", 0, 3)) {
    case 0: op("Path / Path", [&] { show(l / r); }); break;
    case 1: op("Path / text", [&] { show(l / b.p); }); break;
    case 2: op("Path / CString", [&] { show(l / CString(b.p)); }); break;
    case 3: op("Path / itself", [&] { show(l / l); }); break;
    }
    show(l);
    show(r);
}
static void path_lookup() {
    w = World();
    w.add("f", -1, (int)t.pick("kind", 0, 4));
    w.add("g", -1, (int)t.pick("kind", 0, 4));
    w.rename_rc = t.pick("rename fails", 0, 1) ? -1 : 0;
    Path p(t.pick("path", 0, 1) ? "f" : "f/"), q("g");
    op("Path::exists", [&] { t.out(p.exists()); });
    op("Path::is_file", [&] { t.out(p.is_file()); });
    op("Path::is_dir", [&] { t.out(p.is_dir()); });
    op("empty Path", [&] { Path e; t.out(e.exists()); t.out(e.is_file()); t.out(e.is_dir()); });
    op("Path::rename_to", [&] { t.out(p.rename_to(q)); });
    show(p);
    show(q);
    same_world();
}

// ---- glob
static void globbed(const char *root, const char *pattern) {
    op("Path::glob", [&] {
        Path r(root);
        GlobResult g = r.glob(pattern);
        if(t.pick("moved", 0, 1)) {
            GlobResult h(move(g));
            show(g.next());
            for(int k = 0; k < 2; ++k) show(h.next());
            show(g.next());
            return;
        }
        int i = 0;
        for(; i < 16; ++i) {
            auto p = g.next();
            show(p);
            if(!p) break;
        }
        show(g.next());
    });
    same_world();
}
static void glob_names() {
    w = World();
    Blk name("name", t.pick("size", 1, QT(4, 5)), true), pattern("pattern", t.pick("size", 0, QT(3, 4)), true);
    for(size_t i = 0; i < name.n; ++i) vx_assume(name.p[i] != '/');
    if(name.n <= 2) vx_assume(name.p[0] != '.' || (name.n == 2 && name.p[1] != '.'));
    w.add("r", -1, 2);
    w.add("x", 0, 1);
    w.add(name.p, 0, (int)t.pick("kind", 1, 2));
    globbed("r", pattern.p);
}
static void glob_trees() {
    w = World();
    static const char *const patterns[] = {"*", "*/*", "**/*", "a*/b", "**/b", "*/**", "a/**/b", "?/b.x", "*/*/*", "**/*.x", "**", "a**", "**/**", "/", "", "*/", "**/*/b"};
    const char *root = t.pick("root", 0, 2) ? "r" : "";
    int r = -1;
    if(t.pick("root", 0, 1)) w.add("q", -1, 1);
    r = w.add(root, -1, (int)t.pick("kind", 2, 3));
    if(!*root) w.e[r].path[0] = 0;
    int a = w.add("a", *root ? r : -1, (int)t.pick("kind", 1, 3));
    int b = w.add("b", a, (int)t.pick("kind", 1, 2));
    w.add("b.x", a, (int)t.pick("kind", 0, 1));
    w.add("b", b, (int)t.pick("kind", 0, 1));
    int h = w.add(".h", *root ? r : -1, 2);
    w.add("b", h, 1);
    globbed(root, patterns[t.pick("pattern", 0, sizeof(patterns) / sizeof(*patterns) - 1)]);
}

// ---- files
static void file_script(size_t most) {
    w = World();
    w.exists = t.pick("the file exists", 0, 5) != 0;
    w.size = t.pick("size", 0, most);
    for(size_t i = 0; i < w.size; ++i) w.data[i] = t.chr("byte");
    w.reported = w.size;
    switch(t.pick("fault", 0, 3)) {
    case 1: w.read_error_at = t.pick("error at", 0, w.size); break;
    case 2: w.reported += 1; break;
    case 3: w.reported = w.size / 2; break;
    }
    w.mmap_fails = t.pick("mmap fails", 0, 3) == 0;
}
static void file_load_bytes() {
    file_script(QT(4, 5));
    Path p("f");
    op("Path::load_bytes", [&] { auto b = p.load_bytes(); t.out((bool)b); if(b) show(*b); });
    op("Path::load_bytes of another file", [&] { t.out((bool)Path("g").load_bytes()); });
    same_world();
}
static void file_load_text() {
    file_script(QT(4, 4));
    Path p("f");
    op("Path::load_text", [&] { auto b = p.load_text(); t.out((bool)b); if(b) show(*b); });
    same_world();
}
static void file_map() {
    file_script(3);
    op("mmap_file", [&] {
        auto m = mmap_file("f");
        t.out((bool)m);
        if(m) {
            show(m->view());
            MMapping a(move(*m)), b;
            show(a.view());
            show(m->view());
            t.out(b.view().data() == nullptr);
            b = move(a);
            show(b.view());
            show(a.view());
            MMapping &self = b;
            b = move(self);
            show(b.view());
        }
    });
    same_world();
}
static void file_script_lines() {
    file_script(QT(4, 6));
    {
        File f("f", "rb");
        if(t.pick("iterate", 0, 1)) {
            op("lines of a File", [&] {
                for(Bytes &&line : f) {
                    if(t.pick("take", 0, 1)) {
                        Bytes mine(move(line));
                        show(mine);
                    } else
                        show(line);
                }
                t.out(f.eof());
            });
        } else
            op("File::readline_bytes", [&] {
                for(int i = 0; i < 3; ++i) {
                    t.out(f.eof());
                    show(f.readline_bytes());
                }
            });
    }
    same_world();
}
static void file_long_lines() {
    w = World();
    w.exists = true;
    size_t a = t.pick("line", 155, 165);
    for(size_t i = 0; i < a; ++i) w.data[i] = (char)('a' + i % 26);
    w.data[a] = '\n';
    w.size = a + 1 + t.pick("rest", 0, 3);
    for(size_t i = a + 1; i < w.size; ++i) w.data[i] = '\n';
    File f("f", "rb");
    op("long lines", [&] {
        for(Bytes &&line : f) {
            t.out(line.size());
            for(size_t i = 0; i < line.size(); ++i) t.out((unsigned char)line[i]);
        }
    });
}

// ---- regular expressions
static void regex() {
    w = World();
    static const char *const subjects[] = {"", "ab", "a\xc3\xa4" "b\xe2\x82\xac"};
    U8String subject(subjects[t.pick("subject", 0, 2)]);
    U8String pattern("a(b)*\xc3\xa4");
    w.pattern = pattern.c_str();
    w.subject = subject.c_str();
    w.groups = t.pick("groups", 0, 2);
    switch(t.pick("outcome", 0, 5)) {
    case 0: w.compile_fails = true; w.message_size = t.pick("message", 0, 1) ? 159 : 3; break;
    case 1: w.compile_fails = w.no_message = true; break;
    case 2: w.compile_fails = true; w.message_size = 160; break;
    case 3: w.no_data = true; break;
    case 4: w.match_rc = t.pick("no match", 0, 1) ? PCRE2_ERROR_NOMATCH : PCRE2_ERROR_NOMEMORY; break;
    default: w.match_rc = (int)t.pick("highest group", 0, w.groups + 1); break;
    }
    for(size_t g = 0; g <= w.groups && !w.compile_fails && !w.no_data && w.match_rc >= 0; ++g) {
        w.v[2 * g] = w.v[2 * g + 1] = PCRE2_UNSET;
        if(g && !t.pick("set", 0, 1)) continue;
        w.v[2 * g] = t.pick("from", 0, subject.size_bytes());
        w.v[2 * g + 1] = t.pick("to", w.v[2 * g], subject.size_bytes());
        for(int k = 0; k < 2; ++k) vx_assume((subject.c_str()[w.v[2 * g + k]] & 0xc0) != 0x80);
    }
    op("regex_search", [&] {
        U8Regex r(pattern);
        t.out(r.h() != nullptr);
        U8Match first = regex_search(r, subject);
        U8Match m(move(first));
        t.out(m.h() != nullptr);
        t.out(first.h() == nullptr);
        t.out(m.num_groups());
        size_t g = position("group", w.groups);
        if(t.pick("form", 0, 1)) op("U8Match::get_submatch", [&] { show(m.get_submatch(g)); });
        else op("U8Match::group", [&] { auto v = m.group(g); show(v); t.out((uint64_t)((const char *)v.raw_view().data() - subject.c_str())); });
    });
    same_world();
}

// ---- threads
static int error_code(const char *name) {
    static const int all[] = {0, EINVAL, EAGAIN, EDEADLK, EPERM, ENOMEM};
    return all[t.pick(name, 0, 5)];
}
static void mutexes() {
    w = World();
    {
        Mutex m;
        int failing = (int)t.pick("failing", 0, 4);
        int e = failing ? error_code("error") : 0;
        if(failing == 1) w.lock_rc = e;
        if(failing == 2) w.trylock_rc = e;
        if(failing == 3) w.unlock_rc = e;
        if(failing == 4) w.trylock_rc = EBUSY;
        for(int k = 0; k < QT(3, 4); ++k) {
            switch(t.pick("operation", 0, 3)) {
            case 0: op("Mutex::lock", [&] { m.lock(); }); break;
            case 1: op("Mutex::try_lock", [&] { t.out(m.try_lock()); }); break;
            case 2: op("Mutex::unlock", [&] { m.unlock(); }); break;
            case 3: op("LockGuard", [&] { LockGuard<Mutex> g(m); t.out((uint64_t)w.locks); if(t.pick("throw", 0, 1)) throw "out of the block"; }); break;
            }
            t.out((uint64_t)w.locks);
            t.out((uint64_t)w.unlocks);
        }
    }
    same_world();
}
static void *main_of_thread(void *ctx) {
    t.out((uint64_t)++*(int *)ctx);
    return ctx;
}
static void threads() {
    w = World();
    int failing = (int)t.pick("failing", 0, 4);
    int e = failing ? error_code("error") : 0;
    if(failing == 1) w.attr_rc = e;
    if(failing == 2) w.create_rc = e;
    if(failing == 3) w.join_rc = e;
    if(failing == 4) w.detach_rc = e;
    int runs = 0;
    op("Thread", [&] {
        Thread th(main_of_thread, &runs);
        t.out((uint64_t)runs);
        for(int k = 0; k < 2; ++k) {
            switch(t.pick("operation", 0, 3)) {
            case 0: th.join(); break;
            case 1: th.detach(); break;
            case 2: throw "out of the block";
            case 3: break;
            }
            t.out((uint64_t)w.joined);
            t.out((uint64_t)w.detached);
        }
    });
    t.out((uint64_t)runs);
    same_world();
}
