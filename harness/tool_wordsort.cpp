// C36: the word sorting tool.
//@unit repo=core wrap=fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat,mmap,munmap,printf,vprintf,puts,putchar,fputs,fputc,putc,fwrite
//@stub the stdio calls on the input, mmap and munmap are stand-ins that may fail at any step; standard output is kept
#define main tool_main
#include "../tools/wordsort.cpp"
#undef main
#include "toolmodel.hpp"

static bool less_or_equal(const Word &a, const Word &b) {
    for(size_t i = 0; i < a.n && i < b.n; ++i)
        if(a.p[i] != b.p[i]) return (unsigned char)a.p[i] < (unsigned char)b.p[i];
    return a.n <= b.n;
}
static void judge(const char *p, size_t n, int rc) {
    find_words(p, n);
    for(size_t i = 0; i < num_words; ++i)
        for(size_t k = 0; k < words[i].n; ++k)
            if(words[i].p[k] == 0) {
                CHECK(rc != 0, "a word with a zero byte is refused");
                vx_reach("zero byte");
                return;
            }
    CHECK(rc == 0, "the tool succeeds");
    find_lines();
    CHECK(num_lines == num_words, "one line for each word");
    for(size_t i = 0; i < num_lines; ++i) {
        if(i && lines[i] == lines[i - 1]) continue;
        CHECK(times(lines, num_lines, lines[i]) == times(words, num_words, lines[i]), "each word as many times as in the file");
        if(i) CHECK(less_or_equal(lines[i - 1], lines[i]), "in ascending order");
    }
    vx_reach("sorted");
}
//@ C36 every file of 1 to 6 (7) bytes
HARNESS(wordsort_small) {
    Raw r("byte", vx_pick("n", 1, QT(6, 7)));
    judge(r.p, r.n, run_tool(r.p, r.n));
}
//@ C36 texts of 1, 2, 17, 40 (and 150) words, 1, 3, 20 or 40 of them different, in 3 arrangements, with an arbitrary byte near the ends or in the middle
HARNESS(wordsort_long) {
    static const size_t counts[] = {1, 2, 17, 40, 150}, kinds[] = {1, 3, 20, 40};
    compose(counts[vx_pick("words", 0, QT(3, 4))], kinds[vx_pick("different", 0, 3)], (unsigned)vx_pick("arrangement", 0, 2) * 6 + 1,
            (int)vx_pick("ends", 0, 1));
    const size_t at[] = {0, text_n / 2, text_n - 1};
    text[at[vx_pick("place", 0, 2)]] = (char)vx_u8("byte");
    judge(text, text_n, run_tool(text, text_n));
}
//@ C36 texts of 300 and 700 words, 1, 2, 3 or 7 of them different
HARNESS(wordsort_many) {
    static const size_t kinds[] = {1, 2, 3, 7};
    compose(vx_pick("long", 0, 1) ? 700 : 300, kinds[vx_pick("different", 0, 3)], (unsigned)vx_pick("arrangement", 0, 2) * 6 + 1,
            (int)vx_pick("ends", 0, 1));
    judge(text, text_n, run_tool(text, text_n));
}
//@ C36 every number of arguments from 0 to 3, empty files, a failure at any step
HARNESS(wordsort_refused) {
    const int argc = (int)vx_pick("arguments", 0, 3) + 1;
    const size_t n = vx_pick("n", 0, 3);
    may_fail = true;
    const int rc = run_tool("b a", n, argc);
    if(argc != 2) CHECK(printed("tool <infile>\n") && opens == 0, "usage");
    else if(n == 0 || failures) {
        if(rc) CHECK(printed("Could not open input file.\n"), "a file that can not be read is reported");
        else CHECK(n && printed(n == 3 ? "a\nb\n" : "b\n"), "or the failure was of no consequence");
    } else CHECK(rc == 0 && printed(n == 3 ? "a\nb\n" : "b\n"), "the sorted words");
    vx_reach("done");
}
