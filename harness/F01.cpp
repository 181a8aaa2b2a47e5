// Checked wrappers of system calls: the results are those of the calls, failures do not pass unnoticed, readN reads exactly what there is.
//@ define SYMX_FORMAT=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the system calls are stand-ins that record their arguments and return any value they may
//@ bound every argument and result of a single call; reads of up to N bytes (quick 5, thorough 8) delivered in every division into pieces from files of every length up to two bytes more, with a failure at any point
//@ entry f_calls reach=end
//@ entry f_readn quick="N=5" thorough="N=8" reach=end
//@ entry f_read0 reach=end
#include "symx.h"
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <inttypes.h>
#include <Lintel/AssertBoost.hpp>
static int g_calls; static const char *g_what; static int64_t g_a, g_b, g_c, g_ret; static const void *g_p;
static void rec(const char *w, int64_t a, int64_t b, int64_t c, const void *p) { g_calls++; g_what = w; g_a = a; g_b = b; g_c = c; g_p = p; errno = EINTR; }
static int sx_close(int fd) { rec("close", fd, 0, 0, NULL); return (int)g_ret; }
static int sx_dup2(int a, int b) { rec("dup2", a, b, 0, NULL); return (int)g_ret; }
static int sx_pipe(int *p) { rec("pipe", 0, 0, 0, p); p[0] = 7; p[1] = 8; return (int)g_ret; }
static int sx_open(const char *p, int f) { rec("open", f, 0, 0, p); return (int)g_ret; }
static ssize_t sx_write(int fd, const void *p, size_t n) { rec("write", fd, n, 0, p); return g_ret; }
static off_t sx_lseek(int fd, off_t o, int w) { rec("lseek", fd, o, w, NULL); return g_ret; }
static pid_t sx_waitpid(pid_t a, int *p, int o) { rec("waitpid", a, o, 0, p); return (int)g_ret; }
static pid_t sx_fork() { rec("fork", 0, 0, 0, NULL); return (int)g_ret; }
static int sx_kill(pid_t a, int s) { rec("kill", a, s, 0, NULL); return (int)g_ret; }
// a file that gives what is asked for in pieces, and may fail
static uint8_t g_file[16]; static size_t g_len, g_pos; static bool g_pieces, g_failed, g_eof; static int g_failat;
static ssize_t sx_read(int fd, void *p, size_t n) {
    rec("read", fd, n, 0, p); if (!g_pieces) return g_ret; if (g_failat-- == 0) { g_failed = true; return -1; } size_t left = g_len - g_pos, m = n < left ? n : left; if (m > 1) m = 1 + symx_choice(m, "piece"); memcpy(p, g_file + g_pos, m); g_pos += m; if (m == 0) g_eof = true; return m;
}
#define close sx_close
#define dup2 sx_dup2
#define pipe sx_pipe
#define open sx_open
#define read sx_read
#define write sx_write
#define lseek sx_lseek
#define waitpid sx_waitpid
#define fork sx_fork
#define kill sx_kill
#include <Lintel/Posix.hpp>
static void called(const char *w, int64_t a, int64_t b, int64_t c, const void *p) { CHECK(g_calls == 1 && strcmp(g_what, w) == 0, "one call of the function"); CHECK(g_a == a && g_b == b && g_c == c && g_p == p, "the arguments are passed on"); }
ENTRY(f_calls) {
    g_calls = 0; g_pieces = false; unsigned c = symx_choice(10, "call"); int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"); int64_t l = c == 5 || c == 6 || c == 8 ? sym<int64_t>("r") : (int64_t)sym<int32_t>("r"); int fds[2] = {0, 0}; char buf[4]; static const char *path = "/dir/file"; if (c == 0) symx_assume((l == 0) | (l == -1)); g_ret = l; symx_reach("end"); if (l == -1) symx_allow_abort(1); int64_t r = l;
    switch (c) {
    case 0: posix::close(a); called("close", a, 0, 0, NULL); break;
    case 1: posix::dup2(a, b); called("dup2", a, b, 0, NULL); break;
    case 2: posix::pipe(fds); called("pipe", 0, 0, 0, fds); CHECK(fds[0] == 7 && fds[1] == 8, "both ends"); break;
    case 3: r = posix::open(path, b); called("open", b, 0, 0, path); break;
    case 4: r = posix::kill(a, b); called("kill", a, b, 0, NULL); break;
    case 5: r = posix::read(a, buf, 4); called("read", a, 4, 0, buf); break;
    case 6: r = posix::write(a, buf, 3); called("write", a, 3, 0, buf); break;
    case 7: r = posix::waitpid(a, fds, b); called("waitpid", a, b, 0, fds); break;
    case 8: r = posix::lseek(a, (off_t)b * 4097, 2); called("lseek", a, (off_t)b * 4097, 2, NULL); break;
    default: r = posix::fork(); called("fork", 0, 0, 0, NULL); }
    symx_allow_abort(0); CHECK(l != -1, "a failure is not passed over"); CHECK(r == l, "the result is that of the call");
}
ENTRY(f_readn) {
    unsigned n = symx_choice(symx_param("N", 5) + 1, "n"); g_len = symx_choice(n + 3, "length"); g_pos = 0; g_pieces = true; g_failed = g_eof = false; g_failat = symx_choice(4, "fail") - 1; symx_make(g_file, sizeof g_file, "file"); uint8_t buf[12]; for (unsigned i = 0; i < sizeof buf; i++) buf[i] = 0xa5; uint8_t *room = new uint8_t[n]; symx_reach("end");
    symx_allow_abort(g_failat >= 0); ssize_t r = posix::readN(3, room, n); symx_allow_abort(0); CHECK(!g_failed, "a failure is not passed over"); size_t want = n < g_len ? n : g_len; CHECK(r == (ssize_t)want, "everything there is up to the length asked for"); CHECK(g_pos == want, "nothing more is taken from the file"); CHECK(eqBytes((const char *)room, (const char *)g_file, want), "the bytes of the file in order"); CHECK(want == n || g_eof, "less only at the end"); delete[] room;
}
ENTRY(f_read0) { g_calls = 0; g_pieces = false; g_ret = sym<int64_t>("r"); uint32_t n = sym<uint32_t>("n"); char b[4]; bool ok = g_ret == (int64_t)n; symx_reach("end"); if (!ok) symx_allow_abort(1); posix::read0(3, b, n); symx_allow_abort(0); CHECK(ok, "anything but the whole is refused"); called("read", 3, n, 0, b); }
