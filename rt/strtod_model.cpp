// strtod restricted to [blanks][digits][.digits] (the harness's alphabet); fractions are only accumulated, then divided
extern "C" double strtod(const char *s, char **e) {
    const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; unsigned long v = 0; double f = 1; int nd = 0;
    for (; *p >= '0' && *p <= '9'; p++) { v = v * 10 + (*p - '0'); nd++; } if (*p == '.') { const char *q = p + 1; int k = 0; for (; *q >= '0' && *q <= '9'; q++) { v = v * 10 + (*q - '0'); f = f * 10; k++; } if (nd + k) p = q; nd += k; }
    if (e) *e = (char *)(nd ? p : s); return !nd ? 0 : f == 1 ? (double)v : (double)v / f;
}
