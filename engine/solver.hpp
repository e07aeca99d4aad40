// Z3 back end: independence slicing, result cache, counterexample reuse.
#pragma once
#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>

struct Solver {
    ExprCtx&   X;
    Z3_context z;
    u64 n_queries = 0, n_z3 = 0, n_cache = 0, n_model_hit = 0, n_unknown = 0, n_sat = 0, n_unsat = 0;
    double z3_time = 0;
    unsigned timeout_ms = 120000;
    Z3_sort rne = nullptr;

    struct Res { int sat; std::vector<std::pair<uint32_t, u64>> model; };
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { u64 h = v.size(); for (auto x : v) h = ExprCtx::mix(h, x); return h; } };
    std::unordered_map<std::vector<uint32_t>, Res, VH> cache;

    explicit Solver(ExprCtx& x) : X(x)
    {
        Z3_config c = Z3_mk_config();
        Z3_set_param_value(c, "model", "true");
        z = Z3_mk_context(c);
        Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
        Z3_del_config(c);
        solver = nullptr;
    }
    Z3_solver solver;

    Z3_ast b2bv(Z3_ast b) { Z3_sort s1 = Z3_mk_bv_sort(z, 1); return Z3_mk_ite(z, b, Z3_mk_unsigned_int(z, 1, s1), Z3_mk_unsigned_int(z, 0, s1)); }
    Z3_ast asBool(Z3_ast x1) { return Z3_mk_eq(z, x1, Z3_mk_unsigned_int(z, 1, Z3_mk_bv_sort(z, 1))); }
    Z3_sort fpsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort(z, 15, 64); }
    Z3_ast toFP(Expr* e)
    {
        if (e->w != 80) return Z3_mk_fpa_to_fp_bv(z, tr(e), fpsort(e->w));
        // x87: drop the explicit integer bit (normal numbers and zero only)
        Z3_ast a = tr(e);
        return Z3_mk_fpa_to_fp_bv(z, Z3_mk_concat(z, Z3_mk_extract(z, 79, 64, a), Z3_mk_extract(z, 62, 0, a)), fpsort(80));
    }
    Z3_ast fromFP(Z3_ast f, unsigned w)
    {
        Z3_ast bv = Z3_mk_fpa_to_ieee_bv(z, f);
        if (w != 80) return bv;
        Z3_sort s1 = Z3_mk_bv_sort(z, 1), s15 = Z3_mk_bv_sort(z, 15);
        Z3_ast ex = Z3_mk_extract(z, 77, 63, bv);
        Z3_ast ib = Z3_mk_ite(z, Z3_mk_eq(z, ex, Z3_mk_unsigned_int(z, 0, s15)), Z3_mk_unsigned_int(z, 0, s1), Z3_mk_unsigned_int(z, 1, s1));
        return Z3_mk_concat(z, Z3_mk_extract(z, 78, 63, bv), Z3_mk_concat(z, ib, Z3_mk_extract(z, 62, 0, bv)));
    }
    Z3_ast mkconst(u128 v, unsigned w)
    {
        Z3_sort s = Z3_mk_bv_sort(z, w);
        if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, s);
        Z3_ast h = Z3_mk_unsigned_int64(z, (u64)(v >> 64), Z3_mk_bv_sort(z, w - 64));
        Z3_ast l = Z3_mk_unsigned_int64(z, (u64)v, Z3_mk_bv_sort(z, 64));
        return Z3_mk_concat(z, h, l);
    }
    Z3_ast tr(Expr* e)
    {
        if (e->z) return e->z;
        std::vector<Expr*> st{e};
        while (!st.empty()) {
            Expr* x = st.back();
            if (x->z) { st.pop_back(); continue; }
            bool ready = true;
            for (int i = 0; i < x->nk; i++)
                if (!x->k[i]->z) { st.push_back(x->k[i]); ready = false; }
            if (!ready) continue;
            st.pop_back();
            Z3_ast a = x->k[0] ? x->k[0]->z : nullptr, b = x->k[1] ? x->k[1]->z : nullptr, c = x->k[2] ? x->k[2]->z : nullptr;
            Z3_ast r = nullptr;
            switch (x->op) {
            case CONST: r = mkconst(x->val, x->w); break;
            case VAR: { char nm[32]; snprintf(nm, 32, "v%llu_%u", (unsigned long long)x->val, x->w); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), Z3_mk_bv_sort(z, x->w)); break; }
            case ADD: r = Z3_mk_bvadd(z, a, b); break;
            case SUB: r = Z3_mk_bvsub(z, a, b); break;
            case MUL: r = Z3_mk_bvmul(z, a, b); break;
            case UDIV: r = Z3_mk_bvudiv(z, a, b); break;
            case SDIV: r = Z3_mk_bvsdiv(z, a, b); break;
            case UREM: r = Z3_mk_bvurem(z, a, b); break;
            case SREM: r = Z3_mk_bvsrem(z, a, b); break;
            case AND: r = Z3_mk_bvand(z, a, b); break;
            case OR: r = Z3_mk_bvor(z, a, b); break;
            case XOR: r = Z3_mk_bvxor(z, a, b); break;
            case SHL: r = Z3_mk_bvshl(z, a, b); break;
            case LSHR: r = Z3_mk_bvlshr(z, a, b); break;
            case ASHR: r = Z3_mk_bvashr(z, a, b); break;
            case CONCAT: r = Z3_mk_concat(z, a, b); break;
            case EXTRACT: r = Z3_mk_extract(z, (unsigned)x->val + x->w - 1, (unsigned)x->val, a); break;
            case ZEXT: r = Z3_mk_zero_ext(z, x->w - x->k[0]->w, a); break;
            case SEXT: r = Z3_mk_sign_ext(z, x->w - x->k[0]->w, a); break;
            case EQ: r = b2bv(Z3_mk_eq(z, a, b)); break;
            case ULT: r = b2bv(Z3_mk_bvult(z, a, b)); break;
            case ULE: r = b2bv(Z3_mk_bvule(z, a, b)); break;
            case SLT: r = b2bv(Z3_mk_bvslt(z, a, b)); break;
            case SLE: r = b2bv(Z3_mk_bvsle(z, a, b)); break;
            case NOT: r = Z3_mk_bvnot(z, a); break;
            case ITE: r = Z3_mk_ite(z, asBool(a), b, c); break;
            case FLT: r = b2bv(Z3_mk_fpa_lt(z, toFP(x->k[0]), toFP(x->k[1]))); break;
            case FLE: r = b2bv(Z3_mk_fpa_leq(z, toFP(x->k[0]), toFP(x->k[1]))); break;
            case FEQ: r = b2bv(Z3_mk_fpa_eq(z, toFP(x->k[0]), toFP(x->k[1]))); break;
            case FUNO: { Z3_ast l[2] = {Z3_mk_fpa_is_nan(z, toFP(x->k[0])), Z3_mk_fpa_is_nan(z, toFP(x->k[1]))}; r = b2bv(Z3_mk_or(z, 2, l)); break; }
            case FADD: r = fromFP(Z3_mk_fpa_add(z, Z3_mk_fpa_rne(z), toFP(x->k[0]), toFP(x->k[1])), x->w); break;
            case FSUB: r = fromFP(Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), toFP(x->k[0]), toFP(x->k[1])), x->w); break;
            case FMUL: r = fromFP(Z3_mk_fpa_mul(z, Z3_mk_fpa_rne(z), toFP(x->k[0]), toFP(x->k[1])), x->w); break;
            case FDIV: r = fromFP(Z3_mk_fpa_div(z, Z3_mk_fpa_rne(z), toFP(x->k[0]), toFP(x->k[1])), x->w); break;
            case FFROMU: r = fromFP(Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), a, fpsort(x->w)), x->w); break;
            case FFROMS: r = fromFP(Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), a, fpsort(x->w)), x->w); break;
            case FTOU: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), toFP(x->k[0]), x->w); break;
            case FTOS: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), toFP(x->k[0]), x->w); break;
            case FCVT: r = fromFP(Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), toFP(x->k[0]), fpsort(x->w)), x->w); break;
            }
            x->z = r; // contexts made with mk_context collect nothing
        }
        return e->z;
    }

    // ---- linear integer encoding of the linear fragment (exact: wrap-around is made explicit with ite)
    std::unordered_map<Expr*, std::pair<unsigned __int128, unsigned __int128>> ivm;
    std::pair<unsigned __int128, unsigned __int128> iv(Expr* e)
    {
        auto it = ivm.find(e);
        if (it != ivm.end()) return it->second;
        unsigned __int128 mx = e->w >= 64 ? (unsigned __int128)~0ull : (((unsigned __int128)1) << e->w) - 1;
        std::pair<unsigned __int128, unsigned __int128> r{0, mx};
        switch (e->op) {
        case CONST: r = {e->val, e->val}; break;
        case ZEXT: r = iv(e->k[0]); break;
        case ITE: { auto a = iv(e->k[1]), b = iv(e->k[2]); r = {std::min(a.first, b.first), std::max(a.second, b.second)}; break; }
        case ADD: { auto a = iv(e->k[0]), b = iv(e->k[1]); if (a.second + b.second <= mx) r = {a.first + b.first, a.second + b.second}; break; }
        case SUB: { auto a = iv(e->k[0]), b = iv(e->k[1]); if (a.first >= b.second) r = {a.first - b.second, a.second - b.first}; break; }
        case MUL: { auto a = iv(e->k[0]), b = iv(e->k[1]); if (a.second < ((unsigned __int128)1 << 63) && b.second < ((unsigned __int128)1 << 63) && a.second * b.second <= mx) r = {a.first * b.first, a.second * b.second}; break; }
        case SHL: { auto a = iv(e->k[0]); if (e->k[1]->op == CONST && e->k[1]->val < e->w && (a.second << e->k[1]->val) <= mx) r = {a.first << e->k[1]->val, a.second << e->k[1]->val}; break; }
        default: break;
        }
        return ivm[e] = r;
    }
    std::unordered_map<Expr*, int> liam;
    bool lia_ok(Expr* e)
    {
        if (e->w > 64) return false;
        auto it = liam.find(e);
        if (it != liam.end()) return it->second;
        bool r = true;
        switch (e->op) {
        case CONST: case VAR: case EQ: case ULT: case ULE: case ITE: case ZEXT: case ADD: case SUB: break;
        case NOT: case AND: case OR: case XOR: r = e->w == 1; break;
        case MUL: r = e->k[0]->op == CONST || e->k[1]->op == CONST; if (r) { Expr* c = e->k[0]->op == CONST ? e->k[0] : e->k[1]; __int128 k = snorm((__int128)c->val, e->w); r = k >= -16 && k <= 16; } break;
        case SHL: r = e->k[1]->op == CONST && e->k[1]->val <= 4; break;
        case EXTRACT: r = e->val == 0 && iv(e->k[0]).second < (((unsigned __int128)1) << e->w); break;
        default: r = false;
        }
        if (e->w == 1 && (e->op == ADD || e->op == SUB || e->op == MUL || e->op == SHL)) r = false;
        for (int i = 0; i < e->nk && r; i++) r = lia_ok(e->k[i]);
        return liam[e] = r;
    }
    bool wide_arith(Expr* e)
    {
        auto it = wam.find(e);
        if (it != wam.end()) return it->second;
        bool r = (e->op == ADD || e->op == SUB) && iv(e->k[0]).second + iv(e->k[1]).second > 255;
        for (int i = 0; i < e->nk && !r; i++) r = wide_arith(e->k[i]);
        return wam[e] = r;
    }
    std::unordered_map<Expr*, bool> wam;
    std::unordered_map<Expr*, Z3_ast> iastm, bastm;
    Z3_ast inum(unsigned __int128 v)
    {
        char b[48]; int n = 47; b[n] = 0;
        do { b[--n] = (char)('0' + (int)(v % 10)); v /= 10; } while (v);
        return Z3_mk_numeral(z, b + n, Z3_mk_int_sort(z));
    }
    // linear combination of an ADD/SUB/constant-multiple tree, coefficients modulo 2^w in signed form
    struct Lin { std::map<uint32_t, std::pair<Expr*, __int128>> t; __int128 c = 0; };
    static __int128 snorm(__int128 v, unsigned w)
    {
        __int128 m = (__int128)1 << w;
        v %= m;
        if (v < 0) v += m;
        return v >= m / 2 ? v - m : v;
    }
    void lin(Expr* e, __int128 f, Lin& L)
    {
        unsigned w = e->w;
        switch (e->op) {
        case CONST: L.c = snorm(L.c + snorm((__int128)e->val, w) * f, w); return;
        case ADD: lin(e->k[0], f, L); lin(e->k[1], f, L); return;
        case SUB: lin(e->k[0], f, L); lin(e->k[1], -f, L); return;
        case MUL: case SHL: {
            int ci = e->k[1]->op == CONST ? 1 : 0;
            __int128 k = e->op == SHL ? (e->k[1]->val < w ? (__int128)1 << e->k[1]->val : 0) : (__int128)e->k[ci]->val;
            k = snorm(k, w);
            if (k >= -16 && k <= 16) { lin(e->k[e->op == SHL ? 0 : 1 - ci], f * k, L); return; }
            break;
        }
        default: break;
        }
        auto& p = L.t[e->id];
        p.first = e;
        p.second = snorm(p.second + f, w);
    }
    void linrange(const Lin& L, unsigned w, __int128& lo, __int128& hi)
    {
        lo = hi = L.c;
        for (auto& kv : L.t) {
            auto v = iv(kv.second.first);
            __int128 c = kv.second.second, a = c * (__int128)v.first, b = c * (__int128)v.second;
            lo += std::min(a, b);
            hi += std::max(a, b);
        }
    }
    Z3_ast isum(const Lin& L)
    {
        std::vector<Z3_ast> v;
        auto sn = [&](__int128 x) { return x < 0 ? Z3_mk_unary_minus(z, inum((unsigned __int128)-x)) : inum((unsigned __int128)x); };
        for (auto& kv : L.t) if (kv.second.second != 0) {
            Z3_ast a = trI(kv.second.first);
            if (kv.second.second != 1) { Z3_ast l[2] = {sn(kv.second.second), a}; a = Z3_mk_mul(z, 2, l); }
            v.push_back(a);
        }
        if (L.c != 0 || v.empty()) v.push_back(sn(L.c));
        return v.size() == 1 ? v[0] : Z3_mk_add(z, (unsigned)v.size(), v.data());
    }
    Z3_ast reduce(const Lin& L, unsigned w)
    {
        __int128 lo, hi, m = (__int128)1 << w;
        linrange(L, w, lo, hi);
        Z3_ast s = isum(L);
        auto fl = [&](__int128 a) { return a >= 0 ? a / m : -((-a + m - 1) / m); };
        __int128 k0 = fl(lo), k1 = fl(hi);
        Z3_ast r = nullptr;
        for (__int128 k = k1; k >= k0; k--) { // value = s - k*m where k*m <= s < (k+1)*m
            Z3_ast off = k < 0 ? inum((unsigned __int128)(-k * m)) : inum((unsigned __int128)(k * m));
            Z3_ast q[2] = {s, off};
            Z3_ast v = k == 0 ? s : k < 0 ? Z3_mk_add(z, 2, q) : Z3_mk_sub(z, 2, q);
            if (!r) r = v;
            else {
                __int128 b = (k + 1) * m;
                r = Z3_mk_ite(z, Z3_mk_lt(z, s, b < 0 ? Z3_mk_unary_minus(z, inum((unsigned __int128)-b)) : inum((unsigned __int128)b)), v, r);
            }
        }
        return r;
    }
    // a == b modulo 2^w on linear sums
    Z3_ast lineq(Expr* a, Expr* b)
    {
        Lin L;
        lin(a, 1, L);
        lin(b, -1, L);
        __int128 lo, hi, m = (__int128)1 << a->w;
        linrange(L, a->w, lo, hi);
        Z3_ast s = isum(L);
        std::vector<Z3_ast> alt;
        __int128 k0 = lo <= 0 ? -((-lo) / m) : (lo + m - 1) / m, k1 = hi >= 0 ? hi / m : -((-hi + m - 1) / m);
        for (__int128 k = k0; k <= k1; k++) {
            __int128 v = k * m;
            alt.push_back(Z3_mk_eq(z, s, v < 0 ? Z3_mk_unary_minus(z, inum((unsigned __int128)-v)) : inum((unsigned __int128)v)));
        }
        return alt.empty() ? Z3_mk_false(z) : alt.size() == 1 ? alt[0] : Z3_mk_or(z, (unsigned)alt.size(), alt.data());
    }
    Z3_ast trI(Expr* e)
    {
        auto it = iastm.find(e);
        if (it != iastm.end()) return it->second;
        Z3_ast r;
        if (e->w == 1 && e->op != CONST && e->op != VAR) r = Z3_mk_ite(z, trB(e), inum(1), inum(0));
        else switch (e->op) {
        case CONST: r = inum(e->val); break;
        case VAR: { char nm[32]; snprintf(nm, 32, "i%llu_%u", (unsigned long long)e->val, e->w); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm), Z3_mk_int_sort(z)); break; }
        case ZEXT: case EXTRACT: r = trI(e->k[0]); break;
        case ITE: r = Z3_mk_ite(z, trB(e->k[0]), trI(e->k[1]), trI(e->k[2])); break;
        default: { // a linear sum modulo 2^w, reduced once at its root
            Lin L;
            lin(e, 1, L);
            r = reduce(L, e->w);
        }
        }
        return iastm[e] = r;
    }
    Z3_ast trB(Expr* e)
    {
        auto it = bastm.find(e);
        if (it != bastm.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case CONST: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
        case EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(z, trB(e->k[0]), trB(e->k[1])) : lineq(e->k[0], e->k[1]); break;
        case ULT: r = Z3_mk_lt(z, trI(e->k[0]), trI(e->k[1])); break;
        case ULE: r = Z3_mk_le(z, trI(e->k[0]), trI(e->k[1])); break;
        case NOT: r = Z3_mk_not(z, trB(e->k[0])); break;
        case AND: { Z3_ast l[2] = {trB(e->k[0]), trB(e->k[1])}; r = Z3_mk_and(z, 2, l); break; }
        case OR: { Z3_ast l[2] = {trB(e->k[0]), trB(e->k[1])}; r = Z3_mk_or(z, 2, l); break; }
        case XOR: r = Z3_mk_xor(z, trB(e->k[0]), trB(e->k[1])); break;
        case ITE: r = Z3_mk_ite(z, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
        default: r = Z3_mk_eq(z, trI(e), inum(1)); // VAR, EXTRACT of width 1
        }
        return bastm[e] = r;
    }

    bool no_lia = getenv("VF_NOLIA") != nullptr;
    u64 n_lia = 0;
    bool has_fp(Expr* e)
    {
        auto it = fpmemo.find(e);
        if (it != fpmemo.end()) return it->second;
        bool r = e->op >= FLT;
        for (int i = 0; i < e->nk && !r; i++) r = has_fp(e->k[i]);
        return fpmemo[e] = r;
    }
    std::unordered_map<Expr*, bool> fpmemo;

    // 1 sat, 0 unsat, -1 unknown. cs: full conjunction to decide
    int z3check(const std::vector<Expr*>& cs, std::vector<std::pair<uint32_t, u64>>& out)
    {
        n_z3++;
        auto t0 = std::chrono::steady_clock::now();
        bool fp = false;
        for (auto* c : cs) fp |= has_fp(c);
        bool lia = !fp && !no_lia, wide = false;
        for (auto* c : cs) { if (lia) lia = lia_ok(c); if (!wide) wide = wide_arith(c); }
        lia = lia && wide;
        Z3_solver s = fp ? Z3_mk_simple_solver(z) : lia ? Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_LIA")) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
        Z3_solver_inc_ref(z, s);
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeout_ms);
        Z3_solver_set_params(z, s, p);
        if (lia) {
            n_lia++;
            std::unordered_set<Expr*> seen;
            std::function<void(Expr*)> vb = [&](Expr* e) {
                if (!seen.insert(e).second) return;
                if (e->op == VAR) {
                    Z3_solver_assert(z, s, Z3_mk_ge(z, trI(e), inum(0)));
                    Z3_solver_assert(z, s, Z3_mk_lt(z, trI(e), inum(((unsigned __int128)1) << e->w)));
                }
                for (int i = 0; i < e->nk; i++) vb(e->k[i]);
            };
            for (auto* c : cs) { vb(c); Z3_solver_assert(z, s, trB(c)); }
        } else
        for (auto* c : cs) Z3_solver_assert(z, s, asBool(tr(c)));
        Z3_lbool r = Z3_solver_check(z, s);
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(z, s);
            Z3_model_inc_ref(z, m);
            std::vector<std::pair<uint32_t, unsigned>> vs;
            for (auto* c : cs) for (uint32_t v : X.vars(c)) vs.push_back({v, 0});
            std::sort(vs.begin(), vs.end());
            vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
            for (auto& pv : vs) {
                // a variable index always has one width per path; look it up through any constraint
                unsigned w = varwidth(cs, pv.first);
                Expr* ve = X.var(pv.first, w);
                Z3_ast res = nullptr;
                u64 val = 0;
                if (Z3_model_eval(z, m, lia ? trI(ve) : tr(ve), true, &res)) {
                    uint64_t u = 0;
                    if (Z3_get_numeral_uint64(z, res, &u)) val = u;
                }
                out.push_back({pv.first, val});
            }
            Z3_model_dec_ref(z, m);
        }
        Z3_params_dec_ref(z, p);
        Z3_solver_dec_ref(z, s);
        z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        static const char* slow = getenv("VF_SLOW");
        if (slow && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > atof(slow)) {
            fprintf(stderr, "slow query (%.2fs, %d):\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), (int)r);
            for (auto* c : cs) fprintf(stderr, "   %s\n", X.str(c, 9).c_str());
        }
        if (lia && r == Z3_L_UNDEF) { no_lia = true; n_z3--; int q = z3check(cs, out); no_lia = false; return q; }
        if (r == Z3_L_TRUE) { n_sat++; return 1; }
        if (r == Z3_L_FALSE) { n_unsat++; return 0; }
        n_unknown++;
        return -1;
    }
    unsigned varwidth(const std::vector<Expr*>& cs, uint32_t v)
    {
        std::unordered_set<Expr*> seen;
        std::function<unsigned(Expr*)> f = [&](Expr* e) -> unsigned {
            if (e->op == VAR) return e->val == v ? e->w : 0;
            auto& vs = X.vars(e);
            if (!std::binary_search(vs.begin(), vs.end(), v)) return 0;
            if (!seen.insert(e).second) return 0;
            for (int i = 0; i < e->nk; i++) if (unsigned w = f(e->k[i])) return w;
            return 0;
        };
        for (auto* c : cs) { if (unsigned w = f(c)) return w; }
        abort();
    }

    // Is pc && q satisfiable? pc is known satisfiable with model `m`.
    // On sat, *nm (if given) becomes a model of pc && q.
    int check(const std::vector<Expr*>& pc, Expr* q, const std::vector<u64>& m, std::vector<u64>* nm)
    {
        n_queries++;
        if (q->op == CONST) { if (q->val && nm) *nm = m; return q->val ? 1 : 0; }
        if (X.eval(q, m)) { n_model_hit++; if (nm) *nm = m; return 1; }
        // slice
        std::vector<Expr*> cs{q};
        std::vector<uint32_t> vs = X.vars(q);
        std::vector<bool> used(pc.size(), false);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                auto& pv = X.vars(pc[i]);
                bool hit = false;
                for (uint32_t v : pv) if (std::binary_search(vs.begin(), vs.end(), v)) { hit = true; break; }
                if (!hit) continue;
                used[i] = true;
                ch = true;
                cs.push_back(pc[i]);
                std::vector<uint32_t> nv;
                std::set_union(vs.begin(), vs.end(), pv.begin(), pv.end(), std::back_inserter(nv));
                vs.swap(nv);
            }
        }
        std::vector<uint32_t> key;
        for (auto* c : cs) key.push_back(c->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it == cache.end()) {
            Res r;
            r.sat = z3check(cs, r.model);
            if (r.sat == 1) { // validate the model against our own semantics
                std::vector<u64> tm = m;
                for (auto& kv : r.model) { if (kv.first >= tm.size()) tm.resize(kv.first + 1, 0); tm[kv.first] = kv.second; }
                for (auto* c : cs)
                    if (!X.eval(c, tm)) { fprintf(stderr, "MODEL MISMATCH %s\n", X.str(c, 8).c_str()); n_unknown++; r.sat = -1; break; }
            }
            it = cache.emplace(key, std::move(r)).first;
        } else n_cache++;
        const Res& r = it->second;
        if (r.sat == 1 && nm) {
            *nm = m;
            for (auto& kv : r.model) { if (kv.first >= nm->size()) nm->resize(kv.first + 1, 0); (*nm)[kv.first] = kv.second; }
        }
        return r.sat;
    }
};
