// C library functions the library reaches through inline standard library code.
extern "C" {
static int verif_errno;
int *__errno_location() { return &verif_errno; }
static unsigned long parse(const char *s, char **end, int base) {
    const char *p = s;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+') p++;
    if (base == 0) base = 10;
    unsigned long v = 0;
    bool any = false, over = false;
    for (;; p++) {
        int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        any = true;
        if (v > (~0ul - (unsigned long)d) / (unsigned long)base) over = true;
        v = v * (unsigned long)base + (unsigned long)d;
    }
    if (end) *end = const_cast<char *>(any ? p : s);
    if (over) {
        verif_errno = 34;
        return ~0ul;
    }
    return neg ? 0ul - v : v;
}
unsigned long strtoul(const char *s, char **end, int base) { return parse(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return parse(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return parse(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return parse(s, end, base); }
long strtol(const char *s, char **end, int base) { return (long)parse(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return (long)parse(s, end, base); }
}
