// C34: files, paths, regular expressions and threads of the released epoch.
#include <pystd2025ref.hpp>
#include <pystd2025ref_threading.hpp>
#include <pystd2025_threading.hpp>
#include "epoch.hpp"
//@unit repo=core25,filesystem25,regex25,threading25,ref_core,ref_filesystem,ref_regex,ref_threading defs=-DPYSTD2025_HAS_REGEX bcflags=-Wno-macro-redefined natflags=-Wno-macro-redefined
//@unit wrap=opendir,readdir,closedir,stat,lstat,rename,fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat,mmap,munmap
//@unit wrap=pthread_mutex_init,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_unlock,pthread_mutex_destroy,pthread_attr_init,pthread_attr_destroy,pthread_create,pthread_join,pthread_detach
//@stub the released epoch is the copy in /verif/reference under another namespace; where it has a memory error, fails an assertion, aborts or does not end, there is no released behaviour and the case is not part of the claim
//@stub the file system, PCRE2 and the pthread calls are stand-ins that answer as laid down at the start of each run; threads run to completion when they are started
#include "epoch_world.hpp"
namespace released {
using namespace pystd2025ref;
#include "epoch_body.inc"
#include "epoch_system.inc"
}
namespace current {
using namespace pystd2025;
#include "epoch_body.inc"
#include "epoch_system.inc"
}
#define THREW(label) if(t.marks & 1) vx_reach(label)

//@ C34 paths of up to 7 (9) arbitrary bytes: every question about the text [time=60/900]
HARNESS(epoch_path_text) { EPOCH(path_text); }
//@ C34 joined paths of up to 4 (6) arbitrary bytes each [time=60/900]
HARNESS(epoch_path_join) { EPOCH(path_join); }
//@ C34 two paths with every kind of directory entry; renaming that fails
HARNESS(epoch_path_lookup) { EPOCH(path_lookup); }
//@ C34 every name of up to 4 (5) characters against every pattern of up to 3 (4) characters [time=60/900]
HARNESS(epoch_glob_names) {
    EPOCH(glob_names);
    THREW("glob: an exception");
}
//@ C34 a directory tree of three levels, 17 patterns [time=60/900]
HARNESS(epoch_glob_trees) {
    EPOCH(glob_trees);
    THREW("glob: an exception");
}
//@ C34 files of up to 4 (5) arbitrary bytes, missing files, read errors, wrong sizes [time=60/900]
HARNESS(epoch_load_bytes) { EPOCH(file_load_bytes); }
//@ C34 the same as text [time=60/900]
HARNESS(epoch_load_text) { EPOCH(file_load_text); }
//@ C34 mapped files of up to 3 bytes, failures
HARNESS(epoch_mapping) { EPOCH(file_map); }
//@ C34 lines of files of up to 4 (6) arbitrary bytes [time=60/900]
HARNESS(epoch_lines) { EPOCH(file_script_lines); }
//@ C34 lines of 155 to 165 bytes
HARNESS(epoch_long_lines) { EPOCH(file_long_lines); }
//@ C34 subjects of up to 4 characters, up to 2 groups, every set of ranges, every failure [time=60/900]
HARNESS(epoch_regex) {
    EPOCH(regex);
    THREW("regex: an exception");
}
//@ C34 every sequence of 3 (4) operations on a mutex, with failures of the primitives [time=60/900]
HARNESS(epoch_mutex) {
    EPOCH(mutexes);
    THREW("mutex: an exception");
}
//@ C34 threads, with failures of the primitives
HARNESS(epoch_thread) {
    EPOCH(threads);
    THREW("thread: an exception");
}
