// C36: the word counting tool.
//@unit repo=core wrap=fopen,fclose,feof,ferror,clearerr,fgetc,getc,ungetc,fread,fgets,fseek,fseeko,rewind,ftell,ftello,fileno,fstat,mmap,munmap,printf,vprintf,puts,putchar,fputs,fputc,putc,fwrite
//@stub the stdio calls on the input, mmap and munmap are stand-ins that may fail at any step; standard output is kept
#define main tool_main
#include "../tools/wordcount.cpp"
#undef main
#include "toolmodel.hpp"

static void judge(const char *p, size_t n, int rc) {
    if(!well_formed(p, n)) {
        CHECK(rc != 0, "malformed text is refused");
        vx_reach("malformed");
        return;
    }
    CHECK(rc == 0, "the tool succeeds");
    find_words(p, n);
    for(size_t i = 0; i < num_words; ++i)
        for(size_t k = 0; k < words[i].n; ++k)
            if(words[i].p[k] == 0) return; // output formatted as text ends there
    find_lines();
    size_t before = 0, total = 0, length = 0;
    for(size_t i = 0; i < num_lines; ++i) {
        size_t k = 0, count = 0;
        while(k < lines[i].n && lines[i].p[k] >= '0' && lines[i].p[k] <= '9' && k < 4) count = count * 10 + (size_t)(lines[i].p[k++] - '0');
        CHECK(k > 0 && k < lines[i].n && lines[i].p[k] == ' ', "a number and a word in each line");
        lines[i].p += k + 1;
        lines[i].n -= k + 1;
        CHECK(count > 0 && count == times(words, num_words, lines[i]), "the number of times the word is in the file");
        CHECK(times(lines, i, lines[i]) == 0, "each word once");
        if(i) CHECK(count < before || (count == before && lines[i].n <= length), "the most frequent ones first, then the longest ones");
        before = count;
        length = lines[i].n;
        total += count;
    }
    CHECK(total == num_words, "all words are counted");
    vx_reach("counted");
}
//@ C36 every file of 1 to 3 (4) bytes
HARNESS(wordcount_small) {
    Raw r("byte", vx_pick("n", 1, QT(3, 4)));
    judge(r.p, r.n, run_tool(r.p, r.n));
}
//@ C36 every file of 4 to 7 (8) bytes out of a, b, space and newline
HARNESS(wordcount_letters) {
    Raw r(vx_pick("n", 4, QT(7, 8)));
    for(size_t i = 0; i < r.n; ++i) r.p[i] = "ab \n"[vx_pick("letter", 0, 3)];
    judge(r.p, r.n, run_tool(r.p, r.n));
}
//@ C36 texts of 1, 2, 17, 40 (and 150) words, 1, 3, 20 or 40 of them different, in 3 arrangements, with an arbitrary byte near the ends or in the middle
HARNESS(wordcount_long) {
    static const size_t counts[] = {1, 2, 17, 40, 150}, kinds[] = {1, 3, 20, 40};
    compose(counts[vx_pick("words", 0, QT(3, 4))], kinds[vx_pick("different", 0, 3)], (unsigned)vx_pick("arrangement", 0, 2) * 6 + 1,
            (int)vx_pick("ends", 0, 1));
    const size_t at[] = {0, text_n / 2, text_n - 1};
    text[at[vx_pick("place", 0, 2)]] = (char)vx_u8("byte");
    judge(text, text_n, run_tool(text, text_n));
}
//@ C36 texts of 300 and 700 words, 1, 2, 3 or 7 of them different
HARNESS(wordcount_many) {
    static const size_t kinds[] = {1, 2, 3, 7};
    compose(vx_pick("long", 0, 1) ? 700 : 300, kinds[vx_pick("different", 0, 3)], (unsigned)vx_pick("arrangement", 0, 2) * 6 + 1,
            (int)vx_pick("ends", 0, 1));
    judge(text, text_n, run_tool(text, text_n));
}
//@ C36 every number of arguments from 0 to 3, empty files, a failure at any step
HARNESS(wordcount_refused) {
    const int argc = (int)vx_pick("arguments", 0, 3) + 1;
    const size_t n = vx_pick("n", 0, 3);
    may_fail = true;
    const int rc = run_tool("b a", n, argc);
    const bool good = n == 3 ? printed("1 a\n1 b\n") || printed("1 b\n1 a\n") : n && printed("1 b\n");
    if(argc != 2) CHECK(printed("tool <infile>\n") && opens == 0, "usage");
    else if(n == 0 || failures) {
        if(rc) CHECK(printed("Could not open input file.\n"), "a file that can not be read is reported");
        else CHECK(good, "or the failure was of no consequence");
    } else CHECK(rc == 0 && good, "the counted words");
    vx_reach("done");
}
