// Hash-consed bit-vector expressions over symbolic bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <unordered_map>
#include <vector>
#include <deque>
#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstdio>

typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    ZEXT, SEXT, EXTRACT, CONCAT, EQ, ULT, ULE, SLT, SLE, ITE
};

struct Expr {
    K k;
    uint8_t w;          // width in bits, 1..128
    uint8_t lo = 0;     // EXTRACT offset
    uint32_t id = 0;
    u64 support = 0;    // mask of symbolic byte indices
    u128 c = 0;         // CONST value, VAR index
    const Expr *a = nullptr, *b = nullptr, *d = nullptr;
    mutable u64 epoch = 0; mutable u128 val = 0; // value in the evaluation numbered epoch
    mutable const Expr *canon = nullptr; // renamed to variables 0.. in order of the support
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128) v;
    u128 s = u128(1) << (w - 1);
    v &= maskw(w);
    return (i128) ((v ^ s) - s);
}

struct ExprPool {
    struct H { size_t operator()(const Expr *e) const {
        size_t h = (size_t) e->k * 1000003u + e->w * 31u + e->lo;
        auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
        mix((u64) e->c); mix((u64) (e->c >> 64));
        mix((u64) (uintptr_t) e->a); mix((u64) (uintptr_t) e->b); mix((u64) (uintptr_t) e->d);
        return h; } };
    struct Q { bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->lo == y->lo && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
    std::deque<Expr> store;
    std::unordered_map<const Expr *, const Expr *, H, Q> tab;
    struct PH { size_t operator()(std::pair<const Expr *, unsigned> const &p) const { return (size_t) (uintptr_t) p.first * 31 + p.second; } };
    std::unordered_map<std::pair<const Expr *, unsigned>, const Expr *, PH> low;     // low parts of sums and bitwise operations

    const Expr *intern(Expr e) {
        auto it = tab.find(&e);
        if (it != tab.end()) return it->second;
        e.id = (uint32_t) store.size();
        e.support = 0;
        if (e.k == K::VAR) e.support = u64(1) << (unsigned) e.c;
        for (auto *p : {e.a, e.b, e.d}) if (p) e.support |= p->support;
        store.push_back(e);
        const Expr *r = &store.back();
        tab.emplace(r, r);
        return r;
    }
    const Expr *cst(u128 v, unsigned w) { Expr e{}; e.k = K::CONST; e.w = (uint8_t) w; e.c = v & maskw(w); return intern(e); }
    const Expr *var(unsigned i) { Expr e{}; e.k = K::VAR; e.w = 8; e.c = i; return intern(e); }

    static bool isc(const Expr *e) { return e->k == K::CONST; }
    static bool isc(const Expr *e, u128 v) { return e->k == K::CONST && e->c == v; }

    static bool fold2(K k, unsigned w, u128 x, u128 y, u128 &r) {
        u128 m = maskw(w);
        switch (k) {
            case K::ADD: r = (x + y) & m; return true;
            case K::SUB: r = (x - y) & m; return true;
            case K::MUL: r = (x * y) & m; return true;
            case K::UDIV: if (!y) return false; r = x / y; return true;
            case K::UREM: if (!y) return false; r = x % y; return true;
            case K::SDIV: if (!y) return false; if (sextw(y, w) == -1) { r = (0 - x) & m; return true; } r = (u128) (sextw(x, w) / sextw(y, w)) & m; return true;
            case K::SREM: if (!y) return false; if (sextw(y, w) == -1) { r = 0; return true; } r = (u128) (sextw(x, w) % sextw(y, w)) & m; return true;
            case K::AND: r = x & y; return true;
            case K::OR: r = x | y; return true;
            case K::XOR: r = x ^ y; return true;
            case K::SHL: r = y >= w ? 0 : (x << (unsigned) y) & m; return true;
            case K::LSHR: r = y >= w ? 0 : x >> (unsigned) y; return true;
            case K::ASHR: r = (u128) (sextw(x, w) >> (unsigned) (y >= w ? w - 1 : (unsigned) y)) & m; return true;
            case K::EQ: r = x == y; return true;
            case K::ULT: r = x < y; return true;
            case K::ULE: r = x <= y; return true;
            case K::SLT: r = sextw(x, w) < sextw(y, w); return true;
            case K::SLE: r = sextw(x, w) <= sextw(y, w); return true;
            default: return false;
        }
    }
    static bool iscmp(K k) { return k >= K::EQ && k <= K::SLE; }
    static bool commutes(K k) { return k == K::ADD || k == K::MUL || k == K::AND || k == K::OR || k == K::XOR || k == K::EQ; }

    const Expr *bin(K k, const Expr *a, const Expr *b) {
        unsigned w = a->w, rw = iscmp(k) ? 1 : w;
        if (a->w != b->w) { fprintf(stderr, "engine: width mismatch\n"); abort(); }
        u128 r;
        if (isc(a) && isc(b) && fold2(k, w, a->c, b->c, r)) return cst(r, rw);
        if (commutes(k) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
        // constants are on the right for commutative operations
        switch (k) {
            case K::ADD: case K::OR: case K::XOR: case K::SUB: case K::SHL: case K::LSHR: case K::ASHR:
                if (isc(b, 0)) return a;
                if (k == K::OR) { if (isc(b, maskw(w))) return b; if (a == b) return a; }
                if ((k == K::XOR || k == K::SUB) && a == b) return cst(0, w);
                if (k == K::XOR && isc(b) && a->k == K::XOR && isc(a->b)) return bin(K::XOR, a->a, cst(a->b->c ^ b->c, w));
                if (k == K::ADD && isc(b) && a->k == K::ADD && isc(a->b)) return bin(K::ADD, a->a, cst(a->b->c + b->c, w));
                if (k == K::SUB && isc(b)) return bin(K::ADD, a, cst(u128(0) - b->c, w));
                break;
            case K::AND:
                if (isc(b, 0)) return b;
                if (isc(b, maskw(w))) return a;
                if (a == b) return a;
                break;
            case K::MUL:
                if (isc(b, 0)) return b;
                if (isc(b, 1)) return a;
                break;
            case K::EQ:
                if (a == b) return cst(1, 1);
                if (w == 1 && isc(b)) return b->c ? a : bin(K::XOR, a, cst(1, 1));
                if (isc(b) && a->k == K::ZEXT) {
                    if (b->c & ~maskw(a->a->w)) return cst(0, 1);
                    return bin(K::EQ, a->a, cst(b->c, a->a->w));
                }
                if (isc(b) && a->k == K::ADD && isc(a->b)) return bin(K::EQ, a->a, cst(b->c - a->b->c, w));
                if (isc(b) && a->k == K::XOR && isc(a->b)) return bin(K::EQ, a->a, cst(b->c ^ a->b->c, w));
                if (isc(b) && a->k == K::ITE && isc(a->b) && isc(a->d)) {
                    bool t = a->b->c == b->c, f = a->d->c == b->c;
                    if (t && f) return cst(1, 1);
                    if (!t && !f) return cst(0, 1);
                    return t ? a->a : bin(K::XOR, a->a, cst(1, 1));
                }
                if (a->k == K::ZEXT && b->k == K::ZEXT && a->a->w == b->a->w) return bin(K::EQ, a->a, b->a);
                if (a->k == K::SEXT && b->k == K::SEXT && a->a->w == b->a->w) return bin(K::EQ, a->a, b->a);
                break;
            case K::ULT:
                if (a == b || isc(b, 0)) return cst(0, 1);
                if (isc(b) && a->k == K::ZEXT) {
                    if (b->c > maskw(a->a->w)) return cst(1, 1);
                    return bin(K::ULT, a->a, cst(b->c, a->a->w));
                }
                break;
            case K::ULE: if (a == b) return cst(1, 1); break;
            case K::SLT: if (a == b) return cst(0, 1); break;
            case K::SLE: if (a == b) return cst(1, 1); break;
            default: break;
        }
        Expr e{}; e.k = k; e.w = (uint8_t) rw; e.a = a; e.b = b;
        return intern(e);
    }
    const Expr *zext(const Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (isc(a)) return cst(a->c, w);
        if (a->k == K::ZEXT) a = a->a;
        Expr e{}; e.k = K::ZEXT; e.w = (uint8_t) w; e.a = a; return intern(e);
    }
    const Expr *sext(const Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (isc(a)) return cst((u128) sextw(a->c, a->w), w);
        if (a->k == K::ZEXT) return zext(a->a, w);
        Expr e{}; e.k = K::SEXT; e.w = (uint8_t) w; e.a = a; return intern(e);
    }
    const Expr *extract(const Expr *a, unsigned lo, unsigned w) {
        if (lo == 0 && a->w == w) return a;
        if (isc(a)) return cst(a->c >> lo, w);
        if (a->k == K::EXTRACT) return extract(a->a, lo + a->lo, w);
        if (a->k == K::ZEXT) {
            if (lo >= a->a->w) return cst(0, w);
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            if (lo == 0) return zext(a->a, w);
        }
        if (a->k == K::SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
        if (a->k == K::CONCAT) { // a = high, b = low
            unsigned lw = a->b->w;
            if (lo + w <= lw) return extract(a->b, lo, w);
            if (lo >= lw) return extract(a->a, lo - lw, w);
        }
        if (a->k == K::ITE && isc(a->b) && isc(a->d)) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
        if (lo == 0 && (a->k == K::AND || a->k == K::OR || a->k == K::XOR || a->k == K::ADD))
        {
            auto key = std::make_pair(a, w);
            auto it = low.find(key);
            if (it != low.end()) return it->second;
            const Expr *r = bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
            low.emplace(key, r);
            return r;
        }
        Expr e{}; e.k = K::EXTRACT; e.w = (uint8_t) w; e.lo = (uint8_t) lo; e.a = a; return intern(e);
    }
    const Expr *concat(const Expr *hi, const Expr *lo) {
        unsigned w = hi->w + lo->w;
        if (isc(hi) && isc(lo)) return cst((hi->c << lo->w) | lo->c, w);
        if (isc(hi, 0)) return zext(lo, w);
        if (hi->k == K::EXTRACT && lo->k == K::EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
            return extract(hi->a, lo->lo, w);
        Expr e{}; e.k = K::CONCAT; e.w = (uint8_t) w; e.a = hi; e.b = lo; return intern(e);
    }
    const Expr *ite(const Expr *c, const Expr *t, const Expr *f) {
        if (isc(c)) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1 && isc(t) && isc(f)) return t->c ? c : bin(K::XOR, c, cst(1, 1));
        Expr e{}; e.k = K::ITE; e.w = t->w; e.a = c; e.b = t; e.d = f; return intern(e);
    }
    const Expr *lnot(const Expr *a) { return bin(K::XOR, a, cst(1, 1)); }

    // Generic rebuild with a substitution of variables
    template<class F>
    const Expr *subst(const Expr *e, F &&f, std::unordered_map<const Expr *, const Expr *> &memo) {
        if (!e->support) return e;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        const Expr *r;
        switch (e->k) {
            case K::VAR: r = f((unsigned) e->c); break;
            case K::ZEXT: r = zext(subst(e->a, f, memo), e->w); break;
            case K::SEXT: r = sext(subst(e->a, f, memo), e->w); break;
            case K::EXTRACT: r = extract(subst(e->a, f, memo), e->lo, e->w); break;
            case K::CONCAT: r = concat(subst(e->a, f, memo), subst(e->b, f, memo)); break;
            case K::ITE: r = ite(subst(e->a, f, memo), subst(e->b, f, memo), subst(e->d, f, memo)); break;
            default: r = bin(e->k, subst(e->a, f, memo), subst(e->b, f, memo));
        }
        memo.emplace(e, r);
        return r;
    }
    mutable u64 epoch = 0;
    u128 eval(const Expr *e, const uint8_t *vals) const { ++epoch; return value(e, vals); }
    u128 value(const Expr *e, const uint8_t *vals) const {
        switch (e->k) {
            case K::CONST: return e->c;
            case K::VAR: return vals[(unsigned) e->c];
            case K::ZEXT: return value(e->a, vals);
            case K::SEXT: return (u128) sextw(value(e->a, vals), e->a->w) & maskw(e->w);
            case K::EXTRACT: return (value(e->a, vals) >> e->lo) & maskw(e->w);
            default: break;
        }
        if (e->epoch == epoch) return e->val;
        u128 r = 0;
        switch (e->k) {
            case K::CONCAT: r = (value(e->a, vals) << e->b->w) | value(e->b, vals); break;
            case K::ITE: r = value(e->a, vals) ? value(e->b, vals) : value(e->d, vals); break;
            default: fold2(e->k, e->a->w, value(e->a, vals), value(e->b, vals), r);
        }
        e->epoch = epoch; e->val = r;
        return r;
    }
};
