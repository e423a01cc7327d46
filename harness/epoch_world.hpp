// The system seen by C34: a few paths, one file that can be read, PCRE2, pthread.  What it answers is laid down by the
// script at the start of each run, so the two runs see the same system even when they use it in different ways.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

struct Entry {
    char path[24];
    int parent;      // index, -1: the root
    const char *name;
    int kind;        // 0 absent, 1 file, 2 directory, 3 directory that does not open, 4 something else
};
struct World {
    // paths
    Entry e[12];
    int num = 0;
    int dirs_open = 0;
    // the file
    const char *file_name = "f";
    char data[1024];
    size_t size = 0, reported = 0, read_error_at = (size_t)-1;
    bool exists = false, mmap_fails = false;
    int files_open = 0, mapped = 0;
    // renaming
    int rename_rc = 0, renames = 0;
    char from[32], to[32];
    // PCRE2
    bool compile_fails = false, no_message = false, no_data = false;
    size_t message_size = 3, groups = 0;
    int match_rc = 1;
    const char *pattern = "", *subject = "";
    PCRE2_SIZE v[8];
    int codes = 0, datas = 0;
    // pthread
    int init_rc = 0, lock_rc = 0, trylock_rc = 0, unlock_rc = 0, attr_rc = 0, create_rc = 0, join_rc = 0, detach_rc = 0;
    int mutexes = 0, attrs = 0, created = 0, joined = 0, detached = 0;
    pthread_mutex_t *held[4] = {};
    int locks = 0, unlocks = 0;

    int add(const char *name, int parent, int kind) {
        Entry &n = e[num];
        size_t k = 0;
        if(parent >= 0) {
            for(; e[parent].path[k]; ++k) n.path[k] = e[parent].path[k];
            n.path[k++] = '/';
        }
        strcpy(n.path + k, name);
        n.name = name;
        n.parent = parent;
        n.kind = kind;
        return num++;
    }
    int find(const char *p) const {
        if(p[0] == '.' && !p[1]) return num ? 0 : -1;
        for(int i = 0; i < num; ++i)
            if(e[i].kind && !strcmp(e[i].path, p)) return i;
        return -1;
    }
};
static World w;
static bool is_directory(int i) { return w.e[i].kind == 2 || w.e[i].kind == 3; }

// ---- directories
struct Listing {
    int dir, pos;
    dirent e;
};
extern "C" {
DIR *__wrap_opendir(const char *path) {
    int i = w.find(path);
    if(i < 0 || w.e[i].kind != 2) {
        errno = i < 0 ? ENOENT : EACCES;
        return nullptr;
    }
    Listing *l = (Listing *)malloc(sizeof(Listing));
    l->dir = i;
    l->pos = -2;
    ++w.dirs_open;
    return (DIR *)l;
}
dirent *__wrap_readdir(DIR *d) {
    Listing *l = (Listing *)d;
    memset(&l->e, 0, sizeof(l->e));
    if(l->pos < 0) {
        strcpy(l->e.d_name, l->pos == -2 ? "." : "..");
        l->e.d_type = DT_DIR;
        ++l->pos;
        return &l->e;
    }
    while(l->pos < w.num && (w.e[l->pos].parent != l->dir || !w.e[l->pos].kind)) ++l->pos;
    if(l->pos >= w.num) return nullptr;
    strcpy(l->e.d_name, w.e[l->pos].name);
    l->e.d_type = is_directory(l->pos) ? DT_DIR : w.e[l->pos].kind == 1 ? DT_REG : DT_FIFO;
    ++l->pos;
    return &l->e;
}
int __wrap_closedir(DIR *d) {
    if(!d) {
        errno = EINVAL;
        return -1;
    }
    --w.dirs_open;
    free(d);
    return 0;
}
int __wrap_stat(const char *path, struct stat *sb) {
    int i = w.find(path);
    if(i < 0) {
        errno = ENOENT;
        return -1;
    }
    memset(sb, 0, sizeof(*sb));
    // permission bits are of no consequence
    sb->st_mode = (is_directory(i) ? S_IFDIR : w.e[i].kind == 1 ? S_IFREG : S_IFIFO) | 0755;
    return 0;
}
int __wrap_lstat(const char *path, struct stat *sb) { return __wrap_stat(path, sb); }
int __wrap_rename(const char *from, const char *to) {
    ++w.renames;
    strncpy(w.from, from, sizeof(w.from) - 1);
    strncpy(w.to, to, sizeof(w.to) - 1);
    if(w.rename_rc) errno = EXDEV;
    return w.rename_rc;
}
}

// ---- the file
struct Handle {
    size_t pos;
    bool eof, err;
    int pushed;
};
extern "C" {
FILE *__wrap_fopen(const char *name, const char *mode) {
    vx_assert(mode[0] == 'r', "opened for reading");
    if(!w.exists || strcmp(name, w.file_name)) {
        errno = ENOENT;
        return nullptr;
    }
    Handle *h = (Handle *)malloc(sizeof(Handle));
    *h = Handle{0, false, false, -1};
    ++w.files_open;
    return (FILE *)h;
}
int __wrap_fclose(FILE *f) {
    --w.files_open;
    free(f);
    return 0;
}
int __wrap_feof(FILE *f) { return ((Handle *)f)->eof; }
int __wrap_ferror(FILE *f) { return ((Handle *)f)->err; }
void __wrap_clearerr(FILE *f) { ((Handle *)f)->eof = ((Handle *)f)->err = false; }
int __wrap_fgetc(FILE *f) {
    Handle *h = (Handle *)f;
    if(h->pushed >= 0) {
        int c = h->pushed;
        h->pushed = -1;
        return c;
    }
    if(h->eof) return EOF;
    if(h->pos >= w.read_error_at) {
        h->err = true;
        errno = EIO;
        return EOF;
    }
    if(h->pos >= w.size) {
        h->eof = true;
        return EOF;
    }
    return (unsigned char)w.data[h->pos++];
}
int __wrap_getc(FILE *f) { return __wrap_fgetc(f); }
int __wrap_ungetc(int c, FILE *f) {
    Handle *h = (Handle *)f;
    if(c == EOF) return EOF;
    h->pushed = c;
    h->eof = false;
    return c;
}
size_t __wrap_fread(void *p, size_t size, size_t count, FILE *f) {
    size_t want = size * count, got = 0;
    while(got < want) {
        int c = __wrap_fgetc(f);
        if(c == EOF) break;
        ((char *)p)[got++] = (char)c;
    }
    return size ? got / size : 0;
}
char *__wrap_fgets(char *s, int n, FILE *f) {
    int got = 0;
    while(got + 1 < n) {
        int c = __wrap_fgetc(f);
        if(c == EOF) {
            if(got == 0 || ((Handle *)f)->err) return nullptr;
            break;
        }
        s[got++] = (char)c;
        if(c == '\n') break;
    }
    s[got] = 0;
    return s;
}
int __wrap_fseek(FILE *f, long off, int whence) {
    Handle *h = (Handle *)f;
    h->pos = (size_t)((whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)h->pos : (long)w.reported) + off);
    h->eof = false;
    h->pushed = -1;
    return 0;
}
void __wrap_rewind(FILE *f) {
    __wrap_fseek(f, 0, SEEK_SET);
    ((Handle *)f)->err = false;
}
int __wrap_fseeko(FILE *f, long off, int whence) { return __wrap_fseek(f, off, whence); }
long __wrap_ftell(FILE *f) { return (long)((Handle *)f)->pos; }
long __wrap_ftello(FILE *f) { return __wrap_ftell(f); }
int __wrap_fileno(FILE *) { return 77; }
int __wrap_fstat(int fd, struct stat *sb) {
    vx_assert(fd == 77, "an open file is looked up");
    memset(sb, 0, sizeof(*sb));
    sb->st_mode = S_IFREG | 0644;
    sb->st_size = (long)w.reported;
    return 0;
}
void *__wrap_mmap(void *addr, size_t n, int prot, int flags, int fd, long off) {
    vx_assert(fd == 77 && !addr && off == 0, "the open file is mapped from its start");
    vx_assert(prot == PROT_READ && (flags & MAP_PRIVATE), "mapped privately for reading");
    if(w.mmap_fails || !n) {
        errno = ENODEV;
        return MAP_FAILED;
    }
    char *p = (char *)malloc(n);
    for(size_t i = 0; i < n; ++i) p[i] = i < w.size ? w.data[i] : 0;
    ++w.mapped;
    return p;
}
int __wrap_munmap(void *p, size_t) {
    free(p);
    --w.mapped;
    return 0;
}
}

// ---- PCRE2
extern "C" {
pcre2_code_8 *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t options, int *error, PCRE2_SIZE *offset, pcre2_compile_context_8 *) {
    vx_assert(!strcmp((const char *)p, w.pattern), "the pattern is compiled");
    vx_assert(n == PCRE2_ZERO_TERMINATED || n == strlen(w.pattern), "all of the pattern is compiled");
    vx_assert((options & ~PCRE2_NO_UTF_CHECK) == PCRE2_UTF, "compiled as Unicode");
    *error = 115;
    *offset = 0;
    if(w.compile_fails) return nullptr;
    ++w.codes;
    return (pcre2_code_8 *)malloc(8);
}
void pcre2_code_free_8(pcre2_code_8 *c) {
    if(!c) return;
    --w.codes;
    free(c);
}
int pcre2_get_error_message_8(int code, PCRE2_UCHAR8 *buf, PCRE2_SIZE size) {
    vx_assert(code == 115, "the message of the error");
    if(w.no_message) return PCRE2_ERROR_BADDATA;
    size_t k = w.message_size < size ? w.message_size : size - 1;
    for(size_t i = 0; i < k; ++i) buf[i] = (PCRE2_UCHAR8)('a' + i % 26);
    buf[k] = 0;
    return w.message_size < size ? (int)k : PCRE2_ERROR_NOMEMORY;
}
pcre2_match_data_8 *pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *, pcre2_general_context_8 *) {
    if(w.no_data) return nullptr;
    ++w.datas;
    return (pcre2_match_data_8 *)malloc((w.groups + 1) * 2 * sizeof(PCRE2_SIZE));
}
void pcre2_match_data_free_8(pcre2_match_data_8 *d) {
    if(!d) return;
    --w.datas;
    free(d);
}
int pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE start, uint32_t options, pcre2_match_data_8 *d, pcre2_match_context_8 *) {
    if(!d || !c) return PCRE2_ERROR_NULL;
    vx_assert((const char *)s == w.subject, "the subject is searched");
    vx_assert(n == PCRE2_ZERO_TERMINATED || n == strlen(w.subject), "all of the subject is searched");
    vx_assert(start == 0 && (options & ~PCRE2_NO_UTF_CHECK) == 0, "from its start, without options");
    if(w.match_rc < 0) return w.match_rc;
    for(size_t g = 0; g < 2 * (w.groups + 1); ++g) ((PCRE2_SIZE *)d)[g] = w.v[g];
    return w.match_rc;
}
uint32_t pcre2_get_ovector_count_8(pcre2_match_data_8 *) { return (uint32_t)w.groups + 1; }
PCRE2_SIZE *pcre2_get_ovector_pointer_8(pcre2_match_data_8 *d) { return (PCRE2_SIZE *)d; }
}

// ---- pthread
static pthread_mutex_t **slot(pthread_mutex_t *m) {
    for(auto &h : w.held)
        if(h == m) return &h;
    return nullptr;
}
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) {
    ++w.mutexes;
    return w.init_rc;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    --w.mutexes;
    return slot(m) ? EBUSY : 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if(w.lock_rc) return w.lock_rc;
    if(slot(m)) return EDEADLK;
    *slot(nullptr) = m;
    ++w.locks;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if(w.trylock_rc) return w.trylock_rc;
    if(slot(m)) return EBUSY;
    *slot(nullptr) = m;
    ++w.locks;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if(w.unlock_rc) return w.unlock_rc;
    if(!slot(m)) return EPERM;
    *slot(m) = nullptr;
    ++w.unlocks;
    return 0;
}
int __wrap_pthread_attr_init(pthread_attr_t *) {
    if(!w.attr_rc) ++w.attrs;
    return w.attr_rc;
}
int __wrap_pthread_attr_destroy(pthread_attr_t *) {
    --w.attrs;
    return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *ctx) {
    if(w.create_rc) return w.create_rc;
    *t = (pthread_t)(100 + w.created++);
    f(ctx);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **) {
    vx_assert(t == (pthread_t)(99 + w.created) && !w.joined && !w.detached, "a thread is joined once");
    ++w.joined;
    return w.join_rc;
}
int __wrap_pthread_detach(pthread_t t) {
    vx_assert(t == (pthread_t)(99 + w.created) && !w.joined && !w.detached, "a thread is detached once");
    ++w.detached;
    return w.detach_rc;
}
}
static void same_world() {
    t.what = "what is left open";
    t.out((uint64_t)w.dirs_open);
    t.out((uint64_t)w.files_open);
    t.out((uint64_t)w.mapped);
    t.out((uint64_t)w.codes);
    t.out((uint64_t)w.datas);
    t.out((uint64_t)w.mutexes);
    t.out((uint64_t)(w.created - w.joined - w.detached));
    t.what = "what was done";
    t.out((uint64_t)w.renames);
    if(w.renames) {
        t.text(w.from);
        t.text(w.to);
    }
    t.out((uint64_t)w.locks);
    t.out((uint64_t)w.unlocks);
    t.out((uint64_t)w.created);
    t.out((uint64_t)w.joined);
    t.out((uint64_t)w.detached);
}
