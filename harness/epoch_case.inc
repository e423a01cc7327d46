// ---- case mappings
static void upper_any() {
    uint32_t c = (uint32_t)t.sym("codepoint", 32);
    t.what = "uppercase_unicode";
    UnicodeConversionResult r = uppercase_unicode(c);
    for(int i = 0; i < 3; ++i) t.out(r.codepoints[i]);
}
static void lower_any() {
    uint32_t c = (uint32_t)t.sym("codepoint", 32);
    t.what = "lowercase_unicode";
    UnicodeConversionResult r = lowercase_unicode(c);
    for(int i = 0; i < 3; ++i) t.out(r.codepoints[i]);
}
