// Stand-ins for the stdio calls on files: symbolic contents, a fault at any step.
#pragma once
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "util.hpp"

struct FakeFile {
    const char *data = nullptr;
    size_t size = 0, pos = 0;
    bool eof = false, err = false, open = false, at_end = false;
    int pushed = -1;
};
static FakeFile fake;
static const char *fake_name = "file";
static bool may_fail = false;       // any step may fail
static int opens = 0, closes = 0, failures = 0;
static bool read_fault = false;     // a read failed
static bool is_a_directory = false; // opens, but reports some size and cannot be read
static long directory_size = LONG_MAX;
static size_t extra_size = 0;       // the size that is reported is larger than what can be read

static size_t fail_reading_at = (size_t)-1; // reading the byte there fails

static bool step_fails(const char *what) {
    if(!may_fail || failures) return false;
    if(!vx_fork(vx_sym(what, 1))) return false;
    ++failures;
    return true;
}
static FakeFile *file_of(FILE *f) {
    FakeFile *k = (FakeFile *)f;
    vx_assert(k == &fake && k->open, "only the open file is used");
    return k;
}
extern "C" {
FILE *__wrap_fopen(const char *name, const char *mode) {
    vx_assert(!strcmp(name, fake_name), "the named file is opened");
    vx_assert(mode[0] == 'r', "opened for reading");
    vx_assert(!fake.open, "opened once at a time");
    if(step_fails("open fails")) {
        errno = EACCES;
        return nullptr;
    }
    fake.open = true;
    fake.pos = 0;
    fake.eof = fake.err = false;
    fake.pushed = -1;
    ++opens;
    return (FILE *)&fake;
}
int __wrap_fclose(FILE *f) {
    file_of(f)->open = false;
    ++closes;
    return 0;
}
int __wrap_feof(FILE *f) { return file_of(f)->eof; }
int __wrap_ferror(FILE *f) { return file_of(f)->err; }
void __wrap_clearerr(FILE *f) { file_of(f)->eof = file_of(f)->err = false; }
int __wrap_fgetc(FILE *f) {
    FakeFile *k = file_of(f);
    if(k->pushed >= 0) {
        int c = k->pushed;
        k->pushed = -1;
        return c;
    }
    if(k->eof) return EOF; // sticky
    if(k->pos == fail_reading_at) ++failures;
    if(is_a_directory || k->pos == fail_reading_at || step_fails("read fails")) {
        k->err = true;
        read_fault = true;
        errno = EIO;
        return EOF;
    }
    if(k->pos >= k->size) {
        k->eof = true;
        return EOF;
    }
    return (unsigned char)k->data[k->pos++];
}
int __wrap_getc(FILE *f) { return __wrap_fgetc(f); }
int __wrap_ungetc(int c, FILE *f) {
    FakeFile *k = file_of(f);
    vx_assert(c >= 0 && k->pushed < 0, "one byte is put back");
    k->pushed = c;
    k->eof = false;
    return c;
}
size_t __wrap_fread(void *p, size_t size, size_t count, FILE *f) {
    size_t want = size * count, got = 0;
    FakeFile *k = file_of(f);
    if(!may_fail && !is_a_directory && k->pushed < 0 && !k->eof && want <= k->size - k->pos &&
       (fail_reading_at < k->pos || fail_reading_at >= k->pos + want)) {
        memcpy(p, k->data + k->pos, want);
        k->pos += want;
        return count;
    }
    while(got < want) {
        int c = __wrap_fgetc(f);
        if(c == EOF) break;
        ((char *)p)[got++] = (char)c;
    }
    return size ? got / size : 0;
}
char *__wrap_fgets(char *s, int n, FILE *f) {
    int got = 0;
    while(got + 1 < n) {
        int c = __wrap_fgetc(f);
        if(c == EOF) {
            if(got == 0 || fake.err) return nullptr;
            break;
        }
        s[got++] = (char)c;
        if(c == '\n') break;
    }
    s[got] = 0;
    return s;
}
int __wrap_fseek(FILE *f, long off, int whence) {
    FakeFile *k = file_of(f);
    if(step_fails("seek fails")) {
        errno = ESPIPE;
        return -1;
    }
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)k->pos : (long)k->size;
    vx_assert(base + off >= 0, "no seek before the start");
    k->pos = (size_t)(base + off);
    k->at_end = whence == SEEK_END;
    k->eof = false;
    k->pushed = -1;
    return 0;
}
void __wrap_rewind(FILE *f) {
    __wrap_fseek(f, 0, SEEK_SET);
    fake.err = false;
}
int __wrap_fseeko(FILE *f, long off, int whence) { return __wrap_fseek(f, off, whence); }
long __wrap_ftell(FILE *f) {
    FakeFile *k = file_of(f);
    if(step_fails("tell fails")) {
        errno = ESPIPE;
        return -1;
    }
    if(is_a_directory) return k->at_end ? directory_size : 0;
    return (long)(k->pos + (k->pos == k->size ? extra_size : 0));
}
long __wrap_ftello(FILE *f) { return __wrap_ftell(f); }
int __wrap_fileno(FILE *f) {
    file_of(f);
    return 77;
}
int __wrap_fstat(int fd, struct stat *sb) {
    vx_assert(fd == 77 && fake.open, "the open file is looked up");
    if(step_fails("fstat fails")) {
        errno = EIO;
        return -1;
    }
    memset(sb, 0, sizeof(*sb));
    sb->st_mode = is_a_directory ? S_IFDIR : S_IFREG;
    sb->st_size = is_a_directory ? directory_size : (long)(fake.size + extra_size);
    return 0;
}
}
