// Runtime support compiled into every symbolic build: plain C++ definitions of the C library
// routines the code calls, so that they are executed symbolically like everything else.
#include <stddef.h>
#include <stdint.h>
#include <string>
// <stdlib.h> maps strto* to their C23 versions here, which also accept a 0b prefix
extern "C" {
// dotted quads only: decimal, octal (0..) and hexadecimal (0x..) parts as inet_aton(3) documents, four parts required
void rt_bad_cast_d2(void *) asm("_ZNSt8bad_castD2Ev"); void rt_bad_cast_d2(void *) {}
void rt_exception_d2(void *) asm("_ZNSt9exceptionD2Ev"); void rt_exception_d2(void *) {}
static bool rt_quad(const char *s, unsigned *v) {
    unsigned r = 0;
    for (int k = 0; k < 4; k++) { unsigned p = 0, base = 10; bool any = false; if (*s == '0') { base = 8; s++; any = true; if ((*s | 32) == 'x') { base = 16; s++; any = false; } }
        for (;; s++) { unsigned d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'f' ? (*s | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; p = p * base + d; if (p > 255) return false; }
        if (!any) return false; r = (r << 8) | p; if (k < 3) { if (*s != '.') return false; s++; } }
    if (*s && *s != ' ' && !(*s >= 9 && *s <= 13)) return false;
    *v = __builtin_bswap32(r); return true;
}
int inet_aton(const char *s, void *out) { unsigned v; if (!rt_quad(s, &v)) return 0; if (out) *(unsigned *)out = v; return 1; }
unsigned inet_addr(const char *s) { unsigned v; return rt_quad(s, &v) ? v : ~0u; }
int inet_pton(int, const char *s, void *out) { unsigned v; if (!rt_quad(s, &v)) return 0; *(unsigned *)out = v; return 1; }
unsigned ntohl(unsigned v) { return __builtin_bswap32(v); }
unsigned htonl(unsigned v) { return __builtin_bswap32(v); }
void abort(void) __attribute__((noreturn));
size_t strlen(const char *s) { const char *p = s; while (*p) p++; return p - s; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c + (((c >= 'A') & (c <= 'Z')) ? 32 : 0); }
int toupper(int c) { return c - (((c >= 'a') & (c <= 'z')) ? 32 : 0); }
int strcasecmp(const char *a, const char *b) { while (1) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; a++; b++; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; a++; b++; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
void *malloc(size_t);
char *strerror(int) { static char e[] = "error"; return e; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c | 32) >= 'a') & ((c | 32) <= 'z') & (c >= 0) & (c < 128); }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isblank(int c) { return (c == 32) | (c == 9); }
int isascii(int c) { return (c & ~127) == 0; }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | (((c | 32) >= 'a') & ((c | 32) <= 'f')); }
int *__errno_location(void);
// strto*: as specified by ISO C (C locale)
static unsigned long long strtou(const char *s, char **e, int base, bool sgn, unsigned long long umax) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if ((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && (p[2] == '0' || p[2] == '1')) { p += 2; base = 2; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ov = false; unsigned long long lim = sgn ? (neg ? umax / 2 + 1 : umax / 2) : umax;
  while (true) {
    int c = (unsigned char)*p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= base) break;
    any = true; p++;
    if (v > lim / base || v * base > lim - d) { if (v > lim / base) ov = true; else { unsigned long long t = v * base; if (t > lim || (unsigned)d > lim - t) ov = true; } }
    if (!ov) v = v * base + d;
  }
  if (e) *e = (char *)(any ? p : s);
  if (ov) { *__errno_location() = 34; return sgn ? (neg ? (unsigned long long)0 - lim : lim) : umax; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)strtou(s, e, b, true, ~0ULL); }
long long strtoll(const char *s, char **e, int b) { return (long long)strtou(s, e, b, true, ~0ULL); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtou(s, e, b, false, ~0ULL); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtou(s, e, b, false, ~0ULL); }
long rtplain_strtol(const char *s, char **e, int b) asm("strtol");
long rtplain_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long rtplain_strtoll(const char *s, char **e, int b) asm("strtoll");
long long rtplain_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long rtplain_strtoul(const char *s, char **e, int b) asm("strtoul");
unsigned long rtplain_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long rtplain_strtoull(const char *s, char **e, int b) asm("strtoull");
unsigned long long rtplain_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int rt_atoi(const char *s) asm("atoi");
int rt_atoi(const char *s) { return (int)strtol(s, 0, 10); }
long rt_atol(const char *s) asm("atol");
long rt_atol(const char *s) { return strtol(s, 0, 10); }
// printf subset: %d %u %x %X %o %c %s %p %% with width, 0, -, l/ll/h/z/j modifiers
int symx_rt_vsnprintf(char *b, size_t n, const char *f, const uint64_t *a, uint64_t na) {
  size_t o = 0; uint64_t ai = 0;
  #define PUT(ch) do { if (o + 1 < n) b[o] = (ch); o++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++; bool zero = false, left = false; while (*f == '0' || *f == '-') { if (*f == '0') zero = true; else left = true; f++; }
    int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    int prec = -1; if (*f == '.') { f++; prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0, sh = 0; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'h') sh++; else lng++; f++; }
    char t[32]; int k = 0; const char *s = t; int len = 0; bool neg = false;
    if (*f == '%') { PUT('%'); continue; }
    uint64_t v = ai < na ? a[ai++] : 0;
    if (*f == 'c') { t[0] = (char)v; len = 1; }
    else if (*f == 's') { s = (const char *)v; while ((prec < 0 || len < prec) && s[len]) len++; }
    else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p') {
      if (*f == 'd' || *f == 'i') { int64_t x = lng ? (int64_t)v : sh == 2 ? (signed char)v : sh == 1 ? (short)v : (int)v; neg = x < 0; v = neg ? 0 - (uint64_t)x : (uint64_t)x; }
      else if (!lng && *f != 'p') v = sh == 2 ? (unsigned char)v : sh == 1 ? (unsigned short)v : (unsigned)v;
      unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      char r[32]; do { unsigned d = base == 16 ? (unsigned)(v & 15) : (unsigned)(v % base); v = base == 16 ? v >> 4 : v / base; r[k++] = (char)(d + (d < 10 ? '0' : (*f == 'X' ? 'A' - 10 : 'a' - 10))); } while (v);
      for (int i = 0; i < k; i++) t[i] = r[k - 1 - i]; len = k;
    } else abort();
    int tot = len + neg; if (!left && !zero) for (int i = tot; i < w; i++) PUT(' ');
    if (neg) PUT('-');
    if (!left && zero) for (int i = tot; i < w; i++) PUT('0');
    for (int i = 0; i < len; i++) PUT(s[i]);
    if (left) for (int i = tot; i < w; i++) PUT(' ');
  }
  if (n) b[o < n ? o : n - 1] = 0;
  return (int)o;
}
}
// red-black tree support of libstdc++ (order-preserving, unbalanced is allowed by its interface contract)
#include <bits/stl_tree.h>
#include <list>
namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y = z;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = this->_M_next; _List_node_base *const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &, _List_node_base &) noexcept { abort(); }
}
}
// process identity and wall clock: fixed values (only used to seed generators that the checks do not look at)
#include <sys/time.h>
#include <unistd.h>
extern "C" __attribute__((weak)) pid_t getpid() throw() { return 4711; }
extern "C" __attribute__((weak)) pid_t getppid() throw() { return 815; }
extern "C" __attribute__((weak)) int gettimeofday(struct timeval *t, void *) throw() { t->tv_sec = 1200000000; t->tv_usec = 123456; return 0; }
