TOOL = '''#define main tool_main
#include "../tools/%s.cpp"
#undef main
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
static char result[100000];
static int run(const char *text, size_t n) {
    FILE *f = fopen("in.txt", "wb");
    fwrite(text, 1, n, f);
    fclose(f);
    char a0[] = "tool", a1[] = "in.txt";
    char *argv[] = {a0, a1, nullptr};
    fflush(stdout);
    int keep = dup(1);
    freopen("out.txt", "wb", stdout);
    int rc = tool_main(2, argv);
    fflush(stdout);
    dup2(keep, 1);
    f = fopen("out.txt", "rb");
    result[fread(result, 1, sizeof(result) - 1, f)] = 0;
    fclose(f);
    return rc;
}
#define CHECK(x) do { if(!(x)) { fprintf(stderr, "failed: %%s\\n", #x); return 1; } } while(0)
'''
seed('wordsort-format', 'C36', 'tools/wordsort.cpp', [('''            printf("%s\\n", w.c_str());
''', '''            printf(w.c_str());
            printf("\\n");
''')], 'a word with a per cent sign', 'The word is taken as a format; other text or memory contents are shown.',
TOOL % 'wordsort' + '''int main() {
    CHECK(run("x 100%% y", 9) == 0 && !strcmp(result, "100%%\\nx\\ny\\n"));
}
''')
seed('wordcount-final-newline', 'C36', 'tools/wordcount.cpp', [('''pystd2026::U8StringView(bytes.data(), bytes.size_bytes());''',
'''pystd2026::U8StringView(bytes.data(), bytes.size_bytes() - 1);''')], 'a file that does not end with a newline', 'The last character of the last word is lost.',
TOOL % 'wordcount' + '''int main() {
    CHECK(run("ab ab", 5) == 0 && !strcmp(result, "2 ab\\n"));
}
''')
seed('wordcount-narrow-difference', 'C36', 'tools/wordcount.cpp', [('''            return diff;
''', '''            return (signed char)diff;
''')], 'numbers of occurrences that differ by more than 127', 'The order of the words is wrong.',
TOOL % 'wordcount' + '''int main() {
    static char t[1000];
    size_t n = 0;
    for(int i = 0; i < 200; ++i) { t[n++] = 'a'; t[n++] = ' '; }
    t[n++] = 'b';
    CHECK(run(t, n) == 0 && !strcmp(result, "200 a\\n1 b\\n"));
}
''')
