// Bit-vector expressions (width 1..64), hash-consed, with light simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct E {
    Op op; uint8_t w; uint64_t c;           // c: constant / symbol index / extract offset
    const E *a, *b, *d; uint32_t id;
    mutable uint64_t ev = 0; mutable uint32_t ep = 0;   // evaluation memo
    mutable void* z = nullptr;                          // Z3_ast
    mutable std::vector<uint32_t>* vars = nullptr;      // memo for constraints
};
struct EKey { Op op; uint8_t w; uint64_t c; const E *a, *b, *d;
    bool operator==(const EKey& o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct EHash { size_t operator()(const EKey& k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ull ^ k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d); return h; } };

extern std::unordered_map<EKey, E*, EHash> g_tab;
extern std::vector<E*> g_all;
static inline const E* mk(Op op, unsigned w, uint64_t c, const E* a = 0, const E* b = 0, const E* d = 0) {
    EKey k{op, (uint8_t)w, c, a, b, d};
    auto it = g_tab.find(k); if (it != g_tab.end()) return it->second;
    E* e = new E; e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = g_all.size();
    g_all.push_back(e); g_tab.emplace(k, e); return e;
}
static inline const E* K(uint64_t v, unsigned w) { return mk(CONST, w, v & maskw(w)); }
static inline bool isK(const E* e) { return e->op == CONST; }
static inline bool isK(const E* e, uint64_t v) { return e->op == CONST && e->c == v; }

static inline uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? (a / b) & m : m; case UREM: return b ? (a % b) & m : a;
    case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (uint64_t)(sx(a, w) >> b) & m;
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
    default: return 0;
    }
}
const E* eExtract(const E* e, unsigned off, unsigned w);
const E* eConcat(const E* hi, const E* lo);
const E* eZext(const E* e, unsigned w);
const E* eSext(const E* e, unsigned w);
const E* eBin(Op op, const E* a, const E* b);
const E* eIte(const E* c, const E* a, const E* b);
static inline const E* eNot(const E* e) { return eBin(XOR, e, K(1, 1)); }
static inline const E* eAnd(const E* a, const E* b) { return eBin(AND, a, b); }
uint64_t evalE(const E* e, const std::vector<uint8_t>& model);   // fresh epoch
const std::vector<uint32_t>& varsOf(const E* e);
