// Symbolic side only: boost::thread_specific_ptr storage, one slot per (key, thread)
#include <boost/thread/tss.hpp>
#include "symx.h"
struct Slot { const void *key; int tid; boost::detail::thread::cleanup_caller_t caller; boost::detail::thread::cleanup_func_t func; void *data; };
static Slot slots[16];
namespace boost { namespace detail {
void *get_tss_data(void const *key) { int t = symx_tid(); for (auto &s : slots) if (s.data && s.key == key && s.tid == t) return s.data; return 0; }
void set_tss_data(void const *key, thread::cleanup_caller_t caller, thread::cleanup_func_t func, void *data, bool cleanup) {
    int t = symx_tid(); Slot *f = 0; for (auto &s : slots) if (s.data && s.key == key && s.tid == t) f = &s;
    if (f) { if (cleanup && f->func) f->caller(f->func, f->data); f->data = 0; }
    if (!data) return; if (!f) for (auto &s : slots) if (!s.data) { f = &s; break; }
    if (!f) symx_fail("model: too many thread-specific pointers"); f->key = key; f->tid = t; f->caller = caller; f->func = func; f->data = data;
}
} }
