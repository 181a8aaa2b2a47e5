#pragma once
#include "symx.h"
enum { MAXM = 64 };
struct Model {              // reference: unordered list of (key, value)
    uint32_t k[MAXM], v[MAXM]; bool live[MAXM]; unsigned n;
    Model() : n(0) { }
    void add(uint32_t a, uint32_t b) { k[n] = a; v[n] = b; live[n] = true; n++; }
    bool has(uint32_t a) const { bool r = false; for (unsigned i = 0; i < n; i++) r |= live[i] & (k[i] == a); return r; }
    bool hasKV(uint32_t a, uint32_t b) const { bool r = false; for (unsigned i = 0; i < n; i++) r |= live[i] & (k[i] == a) & (v[i] == b); return r; }
    void set(uint32_t a, uint32_t b) { for (unsigned i = 0; i < n; i++) v[i] = (live[i] & (k[i] == a)) ? b : v[i]; }
    void del(uint32_t a) { for (unsigned i = 0; i < n; i++) live[i] = live[i] & (k[i] != a); }
    unsigned count(uint32_t a) const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += live[i] & (k[i] == a); return c; }
    unsigned size() const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += live[i]; return c; }
};
