// C36: the sorting test tools.
//@unit repo=core wrap=fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat,printf,vprintf,puts,putchar,fputs,fputc,putc,fwrite
//@stub the stdio calls on the input are stand-ins; standard output is kept
#define main sorttest_main
#include "../tools/sorttest.cpp"
#undef main
#define main stablesorttest_main
#include "../tools/stablesorttest.cpp"
#undef main
#define main radixsorttest_main
#include "../tools/radixsorttest.cpp"
#undef main
#include "filemodel.hpp"
#include "toolout.hpp"

static size_t numbers[1000];
static bool seen[1000];
static void run(size_t n) {
    bool right = true;
    for(size_t i = 0; i < n; ++i) {
        if(numbers[i] >= n || seen[numbers[i]]) right = false;
        else seen[numbers[i]] = true;
    }
    fake_name = "random.dat";
    fake.data = (const char *)numbers;
    fake.size = n * sizeof(size_t);
    const uint64_t before = vx_live_allocs();
    int rc = 0;
    switch(vx_pick("tool", 0, 2)) {
    case 0: rc = sorttest_main(); break;
    case 1: rc = stablesorttest_main(); break;
    default: rc = radixsorttest_main(); break;
    }
    char want[64] = "Sorting ";
    char *w = want + strlen(want);
    if(n >= 100) *w++ = (char)('0' + n / 100 % 10);
    if(n >= 10) *w++ = (char)('0' + n / 10 % 10);
    *w++ = (char)('0' + n % 10);
    strcpy(w, right ? " numbers.\n" : " numbers.\nSort error!\n");
    CHECK(printed(want), "the number of entries is shown, and an error when they are not 0 to N");
    CHECK(right == (rc == 0), "success when the numbers are 0 to N in any order");
    CHECK(!fake.open && opens == closes && vx_live_allocs() == before, "file and memory are released");
    vx_reach(right ? "sorted" : "not a permutation");
}
//@ C36 up to 4 (5) numbers below 6
HARNESS(sort_tools_small) {
    const size_t n = vx_pick("n", 0, QT(4, 5));
    for(size_t i = 0; i < n; ++i) numbers[i] = vx_pick("number", 0, 5);
    run(n);
}
//@ C36 20, 150 and 700 numbers, 0 to N in eight orders or with one of them missing
HARNESS(sort_tools_large) {
    static const size_t sizes[] = {20, 150, 700};
    const size_t n = sizes[vx_pick("size", 0, 2)];
    const size_t order = vx_pick("order", 0, 7);
    for(size_t i = 0; i < n; ++i)
        numbers[i] = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : order == 3 ? (i + n / 2) % n : i;
    if(order > 3) {
        uint32_t seed = (uint32_t)order;
        for(size_t i = n - 1; i > 0; --i) {
            seed = seed * 1664525u + 1013904223u;
            const size_t k = (seed >> 8) % (i + 1), t = numbers[i];
            numbers[i] = numbers[k];
            numbers[k] = t;
        }
    }
    switch(vx_pick("replaced", 0, 2)) {
    case 1: numbers[n / 3] = n; break;
    case 2: numbers[n - 1] = numbers[0]; break;
    }
    run(n);
}
