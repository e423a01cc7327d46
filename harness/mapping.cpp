// C25, C24: memory mappings and file handles.
//@unit repo=core wrap=fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat,mmap,munmap
//@stub the stdio calls, mmap and munmap are stand-ins that may fail at any step
#include "filemodel.hpp"

struct Area {
    char *p;
    size_t n;
    bool mapped;
};
static Area areas[8];
static int num_areas = 0, mapped = 0;
static bool unmap_fails = false;
extern "C" void *__wrap_mmap(void *addr, size_t n, int prot, int flags, int fd, long off) {
    vx_assert(fd == 77 && fake.open, "the open file is mapped");
    vx_assert(prot == PROT_READ && (flags & MAP_PRIVATE) && off == 0 && !addr, "mapped privately for reading, from the start");
    if(is_a_directory || step_fails("mmap fails")) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    vx_assert(n == fake.size && n > 0, "all of the file is mapped");
    Area &a = areas[num_areas++];
    a.p = (char *)malloc(n);
    for(size_t i = 0; i < n; ++i) a.p[i] = fake.data[i];
    a.n = n;
    a.mapped = true;
    ++mapped;
    return a.p;
}
extern "C" int __wrap_munmap(void *p, size_t n) {
    for(int i = 0; i < num_areas; ++i)
        if(areas[i].p == p && areas[i].mapped) {
            vx_assert(areas[i].n == n, "all of it is unmapped");
            areas[i].mapped = false;
            --mapped;
            free(p);
            if(unmap_fails) {
                errno = EINVAL;
                return -1;
            }
            return 0;
        }
    vx_fail("only a live mapping is unmapped, once");
}
static void contents(const MMapping &m, const char *want, size_t n) {
    auto s = m.span();
    vx_assert(s.size() == n, "the mapping has the size of the file");
    if(n > 100) {
        vx_assert(same_bytes(s.data(), want, n), "the mapping has the contents of the file");
        return;
    }
    for(size_t i = 0; i < n; ++i) vx_assert(s[i] == want[i], "the mapping has the contents of the file");
}

//@ C25,C24 mapping a file of 0..3 bytes, a failure at any step, directories [time=20/60]
HARNESS(mapping_one) {
    {
        Raw r("byte", vx_pick("n", 0, 3));
        fake.data = r.p;
        fake.size = r.n;
        is_a_directory = vx_fork(vx_sym("directory", 1));
        if(is_a_directory && vx_fork(vx_sym("small", 1))) directory_size = 4096;
        may_fail = !is_a_directory;
        {
            auto m = mmap_file("file");
            vx_assert(!fake.open && opens == closes, "the file is closed");
            // rewinding is of no consequence for the mapping
            bool good = bool(m);
            vx_assert(good == (mapped == 1), "a mapping is reported exactly when there is one");
            if(failures == 0) vx_assert(good == (r.n > 0 && !is_a_directory), "a file that is not empty can be mapped");
            if(good) contents(*m, r.p, r.n);
            vx_reach(good ? "mapped" : "not mapped");
        }
        CHECK(mapped == 0, "unmapped exactly once");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C25 two mappings and an optional one, every sequence of up to 3 (4) operations, failures of the calls [time=60/300]
HARNESS(mapping_history) {
    {
        static const char *const data[] = {"ab", "cde"};
        MMapping m[2];
        int has[2] = {-1, -1};
        unmap_fails = vx_fork(vx_sym("unmap fails", 1));
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            switch(vx_pick("op", 0, 4)) {
            case 0: {
                int f = (int)vx_pick("file", 0, 1);
                fake.data = data[f];
                fake.size = strlen(data[f]);
                failures = 0;
                may_fail = true;
                auto o = mmap_file("file");
                may_fail = false;
                if(o) {
                    m[i] = move(*o);
                    has[i] = f;
                }
                break;
            }
            case 1:
                m[i] = move(m[1 - i]);
                has[i] = has[1 - i];
                has[1 - i] = -1;
                break;
            case 2: {
                MMapping t(move(m[i]));
                if(has[i] >= 0) contents(t, data[has[i]], strlen(data[has[i]]));
                vx_assert(m[i].span().size() == 0, "a moved-from mapping owns nothing");
                has[i] = -1;
                break;
            }
            case 3: {
                MMapping &self = m[i];
                m[i] = move(self);
                break;
            }
            case 4:
                m[i] = MMapping();
                has[i] = -1;
                break;
            }
            int live = 0;
            for(int k = 0; k < 2; ++k) {
                live += has[k] >= 0;
                if(has[k] >= 0) contents(m[k], data[has[k]], strlen(data[has[k]]));
                else vx_assert(m[k].span().size() == 0, "owns nothing");
            }
            vx_assert(mapped == live, "every area has exactly one owner");
            vx_assert(!fake.open && opens == closes, "the file is closed");
            if(live == 2) vx_reach("two mappings");
        }
    }
    CHECK(mapped == 0, "everything is unmapped exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C25 a file handle that is opened, read and abandoned at any point, a failure at any step [time=20/60]
HARNESS(file_handle) {
    {
        Raw r("byte", vx_pick("n", 0, 3));
        fake.data = r.p;
        fake.size = r.n;
        may_fail = true;
        unique_ptr<File> f;
        bool fail = refused([&] {
            f.reset(new File("file", "r"));
            size_t some = vx_pick("lines", 0, 2);
            for(size_t i = 0; i < some; ++i) f->readline_bytes();
            if(vx_fork(vx_sym("iterate", 1)))
                for(Bytes &&b : *f)
                    if(b.size() == 1) break;
        });
        CHECK(fail == (failures > 0), "a failure is an exception");
        CHECK(fake.open == bool(f), "open exactly as long as it has an owner");
        vx_reach(fail ? "failed" : "read");
    }
    CHECK(!fake.open && opens == closes && opens <= 1, "closed exactly once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C25 mapping files around every power of two from 128 to 131072 bytes [flags=--steps 60000000] [time=60/200]
HARNESS(mapping_long) {
    {
        size_t n = ((size_t)1 << vx_pick("power", 7, 17)) + vx_pick("more", 0, 2) - 1;
        Raw r(n);
        letters(r.p, n);
        r.p[0] = (char)vx_u8("byte");
        r.p[n / 2] = (char)vx_u8("byte");
        r.p[n - 1] = (char)vx_u8("byte");
        fake.data = r.p;
        fake.size = n;
        unmap_fails = vx_pick("unmap fails", 0, 1);
        {
            auto m = mmap_file("file");
            vx_assert(m && mapped == 1 && !fake.open && opens == closes, "mapped, and the file is closed");
            contents(*m, r.p, n);
            MMapping k(move(*m));
            contents(k, r.p, n);
            vx_assert(m->span().size() == 0, "a moved-from mapping owns nothing");
            *m = move(k);
            contents(*m, r.p, n);
            vx_reach("mapped");
        }
        CHECK(mapped == 0, "unmapped exactly once");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
