// Satisfiability of path conditions: slicing, canonical renaming, query cache, z3.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <string>

struct Solver {
    ExprPool &P;
    Z3_context ctx;
    Z3_solver slv;
    std::unordered_map<const Expr *, Z3_ast> tr;
    struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x100000001b3ull + (h >> 29); return h; } };
    std::unordered_map<std::vector<uint32_t>, int, VH> cache; // 1 sat, 0 unsat
    u64 queries = 0, cacheHits = 0, nsat = 0, nunsat = 0, nunknown = 0;
    double seconds = 0;
    FILE *dump = nullptr; u64 dumped = 0, dumpMax = 0;

    explicit Solver(ExprPool &p) : P(p) {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        slv = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, slv);
        Z3_params ps = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, ps);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), 60000);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "random_seed"), 1);
        Z3_solver_set_params(ctx, slv, ps);
        Z3_params_dec_ref(ctx, ps);
    }
    Z3_ast boolOf(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
    Z3_ast b2bv(Z3_ast b) {
        Z3_sort s = Z3_mk_bv_sort(ctx, 1);
        return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
    }
    // Every expression is translated to a bit-vector term
    Z3_ast z(const Expr *e) {
        auto it = tr.find(e);
        if (it != tr.end()) return it->second;
        Z3_ast r;
        switch (e->k) {
            case K::CONST: {
                if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64) e->c, Z3_mk_bv_sort(ctx, e->w));
                else {
                    Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64) (e->c >> 64), Z3_mk_bv_sort(ctx, e->w - 64));
                    Z3_ast l = Z3_mk_unsigned_int64(ctx, (u64) e->c, Z3_mk_bv_sort(ctx, 64));
                    r = Z3_mk_concat(ctx, h, l);
                }
                break;
            }
            case K::VAR: {
                std::string n = "b" + std::to_string((unsigned) e->c);
                r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, 8));
                break;
            }
            case K::ADD: r = Z3_mk_bvadd(ctx, z(e->a), z(e->b)); break;
            case K::SUB: r = Z3_mk_bvsub(ctx, z(e->a), z(e->b)); break;
            case K::MUL: r = Z3_mk_bvmul(ctx, z(e->a), z(e->b)); break;
            case K::UDIV: r = Z3_mk_bvudiv(ctx, z(e->a), z(e->b)); break;
            case K::SDIV: r = Z3_mk_bvsdiv(ctx, z(e->a), z(e->b)); break;
            case K::UREM: r = Z3_mk_bvurem(ctx, z(e->a), z(e->b)); break;
            case K::SREM: r = Z3_mk_bvsrem(ctx, z(e->a), z(e->b)); break;
            case K::AND: r = Z3_mk_bvand(ctx, z(e->a), z(e->b)); break;
            case K::OR: r = Z3_mk_bvor(ctx, z(e->a), z(e->b)); break;
            case K::XOR: r = Z3_mk_bvxor(ctx, z(e->a), z(e->b)); break;
            case K::SHL: r = Z3_mk_bvshl(ctx, z(e->a), z(e->b)); break;
            case K::LSHR: r = Z3_mk_bvlshr(ctx, z(e->a), z(e->b)); break;
            case K::ASHR: r = Z3_mk_bvashr(ctx, z(e->a), z(e->b)); break;
            case K::ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, z(e->a)); break;
            case K::SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, z(e->a)); break;
            case K::EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, z(e->a)); break;
            case K::CONCAT: r = Z3_mk_concat(ctx, z(e->a), z(e->b)); break;
            case K::EQ: r = b2bv(Z3_mk_eq(ctx, z(e->a), z(e->b))); break;
            case K::ULT: r = b2bv(Z3_mk_bvult(ctx, z(e->a), z(e->b))); break;
            case K::ULE: r = b2bv(Z3_mk_bvule(ctx, z(e->a), z(e->b))); break;
            case K::SLT: r = b2bv(Z3_mk_bvslt(ctx, z(e->a), z(e->b))); break;
            case K::SLE: r = b2bv(Z3_mk_bvsle(ctx, z(e->a), z(e->b))); break;
            case K::ITE: r = Z3_mk_ite(ctx, boolOf(z(e->a)), z(e->b), z(e->d)); break;
        }
        tr.emplace(e, r);
        return r;
    }
    // Rename the variables of e (whose support is a subset of mask) to their rank in mask
    struct MK { const Expr *e; u64 m; bool operator==(const MK &o) const { return e == o.e && m == o.m; } };
    struct MH { size_t operator()(const MK &k) const { return (size_t) k.e * 31 + k.m * 0x9e3779b97f4a7c15ull; } };
    std::unordered_map<MK, const Expr *, MH> ren;
    const Expr *rename(const Expr *e, u64 mask) {
        MK k{e, mask};
        auto it = ren.find(k);
        if (it != ren.end()) return it->second;
        std::unordered_map<const Expr *, const Expr *> memo;
        const Expr *r = P.subst(e, [&](unsigned v) { return P.var((unsigned) __builtin_popcountll(mask & ((u64(1) << v) - 1))); }, memo);
        ren.emplace(k, r);
        return r;
    }
    int rawCheck(const std::vector<const Expr *> &cs, std::vector<uint8_t> *model, u64 mask) {
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver_push(ctx, slv);
        for (auto *c : cs) Z3_solver_assert(ctx, slv, boolOf(z(c)));
        if (dump && dumped < dumpMax) { fprintf(dump, "(push 1)\n%s(check-sat)\n(pop 1)\n", Z3_solver_to_string(ctx, slv)); ++dumped; }
        Z3_lbool r = Z3_solver_check(ctx, slv);
        ++queries;
        if (r == Z3_L_TRUE && model) {
            Z3_model m = Z3_solver_get_model(ctx, slv);
            Z3_model_inc_ref(ctx, m);
            for (unsigned v = 0; v < 64; ++v) if (mask >> v & 1) {
                Z3_ast out; uint64_t val = 0;
                if (Z3_model_eval(ctx, m, z(P.var(v)), true, &out)) Z3_get_numeral_uint64(ctx, out, &val);
                (*model)[v] = (uint8_t) val;
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_pop(ctx, slv, 1);
        seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == Z3_L_TRUE) { ++nsat; return 1; }
        if (r == Z3_L_FALSE) { ++nunsat; return 0; }
        ++nunknown;
        return -1;
    }
    static void slice(const std::vector<const Expr *> &pc, u64 &mask, std::vector<const Expr *> &out) {
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
                if (!used[i] && (pc[i]->support & mask)) {
                    used[i] = 1; out.push_back(pc[i]);
                    if (pc[i]->support & ~mask) { mask |= pc[i]->support; ch = true; }
                }
        }
    }
    // Is pc && c satisfiable? pc itself is known to be satisfiable. -1: unknown
    int sat(const std::vector<const Expr *> &pc, const Expr *c) {
        if (ExprPool::isc(c)) return c->c ? 1 : 0;
        u64 mask = c->support;
        std::vector<const Expr *> s;
        slice(pc, mask, s);
        s.push_back(c);
        std::vector<uint32_t> key;
        std::vector<const Expr *> cs;
        for (auto *e : s) { auto *r = rename(e, mask); if (ExprPool::isc(r)) { if (!r->c) return 0; continue; } cs.push_back(r); }
        for (auto *e : cs) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it != cache.end()) { ++cacheHits; return it->second; }
        int r = rawCheck(cs, nullptr, 0);
        if (r >= 0) cache.emplace(std::move(key), r);
        return r;
    }
    // A model of the whole path condition and c, for all variables in 'all'
    int model(const std::vector<const Expr *> &pc, const Expr *c, u64 all, std::vector<uint8_t> &out) {
        out.assign(64, 0);
        std::vector<const Expr *> cs = pc;
        if (c) cs.push_back(c);
        return rawCheck(cs, &out, all);
    }
};
