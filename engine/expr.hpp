// Hash-consed bit-vector expressions (width 1..128) with local simplification.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef uint64_t           u64;
typedef int64_t            i64;
typedef unsigned __int128  u128;
typedef __int128           i128;

enum Op : uint8_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, NOT, ITE,
    // floating point over the IEEE bit pattern (widths 32/64 only; 80 = x87)
    FLT, FLE, FEQ, FUNO, FADD, FSUB, FMUL, FDIV, FFROMU, FFROMS, FTOU, FTOS, FCVT
};

struct Expr {
    Op       op;
    uint8_t  nk;
    uint16_t w;
    uint32_t id;
    u64      hash;
    u128     val; // CONST value, VAR index, EXTRACT low bit, FP source width
    Expr*    k[3];
    Z3_ast   z;
    std::vector<uint32_t>* vars; // sorted variable ids
    // evaluation memo
    u64  ev_gen;
    u128 ev_val;
};

inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= mask(w);
    return (i128)((v ^ m) - m);
}

double fp_to_double(u128 v, unsigned w);
u128   double_to_fp(long double d, unsigned w);
long double fp_to_ld(u128 v, unsigned w);
u128   ld_to_fp(long double d, unsigned w);

struct ExprCtx {
    std::vector<Expr*>  table;
    size_t              count = 0;
    uint32_t            next_id = 1;
    u64                 gen = 1;
    std::vector<unsigned> var_w; // width by var index
    Expr* bytes[256];
    Expr *t, *f;
    ExprCtx()
    {
        table.assign(1 << 16, nullptr);
        for (int i = 0; i < 256; i++) bytes[i] = mk0(CONST, 8, i);
        t = mk0(CONST, 1, 1);
        f = mk0(CONST, 1, 0);
    }
    static u64 mix(u64 h, u64 v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 29);
    }
    Expr* intern(Op op, unsigned w, u128 val, Expr* a, Expr* b, Expr* c)
    {
        u64 h = mix(mix(op * 131 + w, (u64)val), (u64)(val >> 64));
        if (a) h = mix(h, a->id);
        if (b) h = mix(h, b->id);
        if (c) h = mix(h, c->id);
        size_t m = table.size() - 1, i = h & m;
        while (Expr* e = table[i]) {
            if (e->hash == h && e->op == op && e->w == w && e->val == val && e->k[0] == a
                && e->k[1] == b && e->k[2] == c)
                return e;
            i = (i + 1) & m;
        }
        Expr* e = (Expr*)malloc(sizeof(Expr));
        e->op = op; e->w = w; e->id = next_id++; e->hash = h; e->val = val;
        e->k[0] = a; e->k[1] = b; e->k[2] = c;
        e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
        e->z = nullptr; e->vars = nullptr; e->ev_gen = 0;
        table[i] = e;
        if (++count * 2 > table.size()) {
            std::vector<Expr*> nt(table.size() * 2, nullptr);
            size_t nm = nt.size() - 1;
            for (Expr* x : table)
                if (x) {
                    size_t j = x->hash & nm;
                    while (nt[j]) j = (j + 1) & nm;
                    nt[j] = x;
                }
            table.swap(nt);
        }
        return e;
    }
    Expr* mk0(Op op, unsigned w, u128 v) { return intern(op, w, v, nullptr, nullptr, nullptr); }

    Expr* c(u128 v, unsigned w)
    {
        v &= mask(w);
        if (w == 8) return bytes[(unsigned)v] ? bytes[(unsigned)v] : mk0(CONST, 8, v);
        return mk0(CONST, w, v);
    }
    Expr* boolean(bool b) { return b ? t : f; }
    Expr* var(uint32_t idx, unsigned w)
    {
        return mk0(VAR, w, idx);
    }
    static bool isC(Expr* e) { return e->op == CONST; }

    static u128 fold(Op op, unsigned w, u128 a, u128 b, unsigned aw)
    {
        switch (op) {
        case ADD: return (a + b) & mask(w);
        case SUB: return (a - b) & mask(w);
        case MUL: return (a * b) & mask(w);
        case UDIV: return b ? a / b : mask(w);
        case UREM: return b ? a % b : a;
        case SDIV: {
            i128 x = sx(a, w), y = sx(b, w);
            if (y == 0) return x >= 0 ? mask(w) : 1;
            if (y == -1) return (u128)(0 - (u128)x) & mask(w);
            return (u128)(x / y) & mask(w);
        }
        case SREM: {
            i128 x = sx(a, w), y = sx(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & mask(w);
        }
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << (unsigned)b) & mask(w);
        case LSHR: return b >= w ? 0 : a >> (unsigned)b;
        case ASHR: return b >= w ? (sx(a, w) < 0 ? mask(w) : 0) : (u128)(sx(a, w) >> (unsigned)b) & mask(w);
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sx(a, aw) < sx(b, aw);
        case SLE: return sx(a, aw) <= sx(b, aw);
        default: break;
        }
        abort();
    }
    static u128 foldfp(Expr* e, u128 a, u128 b)
    {
        unsigned aw = e->k[0]->w;
        switch (e->op) {
        case FLT: return fp_to_ld(a, aw) < fp_to_ld(b, aw);
        case FLE: return fp_to_ld(a, aw) <= fp_to_ld(b, aw);
        case FEQ: return fp_to_ld(a, aw) == fp_to_ld(b, aw);
        case FUNO: { long double x = fp_to_ld(a, aw), y = fp_to_ld(b, aw); return x != x || y != y; }
        case FADD: case FSUB: case FMUL: case FDIV: {
            if (e->w == 32) {
                float x = (float)fp_to_double(a, 32), y = (float)fp_to_double(b, 32), r;
                r = e->op == FADD ? x + y : e->op == FSUB ? x - y : e->op == FMUL ? x * y : x / y;
                return double_to_fp(r, 32);
            }
            if (e->w == 64) {
                double x = fp_to_double(a, 64), y = fp_to_double(b, 64), r;
                r = e->op == FADD ? x + y : e->op == FSUB ? x - y : e->op == FMUL ? x * y : x / y;
                return double_to_fp(r, 64);
            }
            long double x = fp_to_ld(a, 80), y = fp_to_ld(b, 80), r;
            r = e->op == FADD ? x + y : e->op == FSUB ? x - y : e->op == FMUL ? x * y : x / y;
            return ld_to_fp(r, 80);
        }
        case FFROMU:
            if (e->w == 32) return double_to_fp((float)(u64)a, 32);
            if (e->w == 64) return double_to_fp((double)(u64)a, 64);
            return ld_to_fp((long double)(u64)a, 80);
        case FFROMS: {
            i64 s = (i64)sx(a, aw);
            if (e->w == 32) return double_to_fp((float)s, 32);
            if (e->w == 64) return double_to_fp((double)s, 64);
            return ld_to_fp((long double)s, 80);
        }
        case FTOU: { long double x = fp_to_ld(a, aw); return (x >= 0 && x < 1.8446744073709552e19L) ? ((u128)(u64)x & mask(e->w)) : 0; }
        case FTOS: { long double x = fp_to_ld(a, aw); return ((u128)(i128)(i64)x) & mask(e->w); }
        case FCVT: {
            if (e->w == 32) return double_to_fp((float)fp_to_ld(a, aw), 32);
            if (e->w == 64) return double_to_fp((double)fp_to_ld(a, aw), 64);
            return ld_to_fp(fp_to_ld(a, aw), 80);
        }
        default: abort();
        }
    }
    Expr* fp(Op op, unsigned w, Expr* a, Expr* b = nullptr)
    {
        Expr* e = intern(op, w, 0, a, b, nullptr);
        if (isC(a) && (!b || isC(b))) return c(foldfp(e, a->val, b ? b->val : 0), w);
        if (op == FLT || op == FLE || op == FEQ || op == FUNO) {
            // comparison of a constant with a non-decreasing function of one unsigned integer: a bound on the integer
            bool left = isC(b);
            Expr *f = left ? a : b, *k = left ? b : a;
            if (isC(k) && monotone(f)) {
                long double kv = fp_to_ld(k->val, k->w);
                if (kv != kv) return boolean(op == FUNO);
                if (op == FUNO) return boolean(false);
                Expr* x = monotone(f);
                auto first = [&](bool orEqual) { // the least x with f(x) >= k (or > k), 2^w if there is none
                    u128 lo = 0, hi = (u128)1 << x->w;
                    while (lo < hi) {
                        u128 mid = lo + (hi - lo) / 2;
                        long double v = fp_to_ld(eval1(f, mid), f->w);
                        if (orEqual ? v > kv : v >= kv) hi = mid; else lo = mid + 1;
                    }
                    return lo;
                };
                auto below = [&](u128 n) { return n > mask(x->w) ? boolean(true) : bin(ULT, x, c(n, x->w)); };
                if (op == FLT) return left ? below(first(false)) : notE(below(first(true)));
                if (op == FLE) return left ? below(first(true)) : notE(below(first(false)));
                return bin(AND, below(first(true)), notE(below(first(false))));
            }
        }
        return e;
    }
    // the integer of which e is a non-decreasing floating-point function without NaN, nullptr otherwise
    Expr* monotone(Expr* e)
    {
        auto fin = [&](Expr* k) { long double v = isC(k) ? fp_to_ld(k->val, k->w) : 0; return isC(k) && v == v && v < 1e300L && v > -1e300L; };
        for (;; e = e->k[0]) switch (e->op) {
            case FFROMU: return e->k[0]->w <= 64 && !isC(e->k[0]) ? e->k[0] : nullptr;
            case FCVT: break;
            case FDIV: case FMUL: if (!fin(e->k[1]) || !(fp_to_ld(e->k[1]->val, e->w) > 0)) return nullptr; break;
            case FADD: case FSUB: if (!fin(e->k[1])) return nullptr; break;
            default: return nullptr;
        }
    }
    static u128 eval1(Expr* e, u128 x)
    {
        if (e->op == FFROMU) return foldfp(e, x, 0);
        return foldfp(e, eval1(e->k[0], x), e->nk > 1 ? e->k[1]->val : 0);
    }

    Expr* notE(Expr* a)
    {
        assert(a->w == 1);
        if (isC(a)) return boolean(!a->val);
        if (a->op == NOT) return a->k[0];
        if (a->op == ULT) return bin(ULE, a->k[1], a->k[0]);
        if (a->op == ULE) return bin(ULT, a->k[1], a->k[0]);
        if (a->op == SLT) return bin(SLE, a->k[1], a->k[0]);
        if (a->op == SLE) return bin(SLT, a->k[1], a->k[0]);
        return intern(NOT, 1, 0, a, nullptr, nullptr);
    }
    Expr* zext(Expr* a, unsigned w)
    {
        if (a->w == w) return a;
        assert(a->w < w);
        if (isC(a)) return c(a->val, w);
        if (a->op == ZEXT) a = a->k[0];
        return intern(ZEXT, w, 0, a, nullptr, nullptr);
    }
    Expr* sext(Expr* a, unsigned w)
    {
        if (a->w == w) return a;
        if (isC(a)) return c((u128)sx(a->val, a->w), w);
        if (a->op == ZEXT) return zext(a->k[0], w);
        if (a->op == SEXT) a = a->k[0];
        return intern(SEXT, w, 0, a, nullptr, nullptr);
    }
    Expr* extract(Expr* a, unsigned lo, unsigned w)
    {
        if (lo == 0 && w == a->w) return a;
        assert(lo + w <= a->w);
        switch (a->op) {
        case CONST: return c(a->val >> lo, w);
        case EXTRACT: return extract(a->k[0], lo + (unsigned)a->val, w);
        case CONCAT: {
            unsigned lw = a->k[1]->w; // k[0]=high, k[1]=low
            if (lo >= lw) return extract(a->k[0], lo - lw, w);
            if (lo + w <= lw) return extract(a->k[1], lo, w);
            return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
        }
        case ZEXT: {
            unsigned iw = a->k[0]->w;
            if (lo >= iw) return c(0, w);
            if (lo + w <= iw) return extract(a->k[0], lo, w);
            return zext(extract(a->k[0], lo, iw - lo), w);
        }
        case SEXT: {
            unsigned iw = a->k[0]->w;
            if (lo + w <= iw) return extract(a->k[0], lo, w);
            break;
        }
        case AND: case OR: case XOR:
            if (isC(a->k[1]) || isC(a->k[0]) || (a->op == XOR && (a->k[0]->op == ZEXT || a->k[0]->op == CONCAT || a->k[1]->op == ZEXT || a->k[1]->op == CONCAT)))
                return bin(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
            break;
        case ADD: case SUB: case MUL:
            if (lo == 0 && w >= 8 && (isC(a->k[0]) || isC(a->k[1])))
                return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
            break;
        case ITE:
            if (isC(a->k[1]) || isC(a->k[2]))
                return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
            break;
        case SHL:
            if (isC(a->k[1])) {
                unsigned s = (unsigned)a->k[1]->val;
                if (s >= a->w || lo + w <= s) return c(0, w);
                if (lo >= s) return extract(a->k[0], lo - s, w);
            }
            break;
        case LSHR:
            if (isC(a->k[1])) {
                unsigned s = (unsigned)a->k[1]->val;
                if (s >= a->w || lo + s >= a->w) return c(0, w);
                if (lo + s + w <= a->w) return extract(a->k[0], lo + s, w);
            }
            break;
        default: break;
        }
        return intern(EXTRACT, w, lo, a, nullptr, nullptr);
    }
    Expr* concat(Expr* hi, Expr* lo)
    {
        unsigned w = hi->w + lo->w;
        if (isC(hi) && isC(lo)) return c((hi->val << lo->w) | lo->val, w);
        if (isC(hi) && hi->val == 0) return zext(lo, w);
        // adjacent extracts of one expression
        auto base = [](Expr* e, unsigned& l) { if (e->op == EXTRACT) { l = (unsigned)e->val; return e->k[0]; } l = 0; return e; };
        unsigned hl, ll;
        Expr *hb = base(hi, hl), *lb = base(lo, ll);
        if (hb == lb && hi->op == EXTRACT && hl == ll + lo->w) return extract(lb, ll, w);
        // the low part of an expression may have been simplified on its own
        if (hi->op == EXTRACT && hl == lo->w && extract(hb, 0, lo->w) == lo) return extract(hb, 0, w);
        if (hi->op == EXTRACT && lo->op == CONCAT) {
            // (x[hi] ++ (x[lo] ++ r))
            unsigned l2; Expr* b2 = base(lo->k[0], l2);
            if (b2 == hb && hl == l2 + lo->k[0]->w && lo->k[0]->op == EXTRACT)
                return concat(extract(hb, l2, hi->w + lo->k[0]->w), lo->k[1]);
        }
        // ZEXT tail: 0 ++ ... handled; x = ZEXT(y): hi==0 const only
        // concat(concat(a,b),c) -> concat(a, concat(b,c)) when (b,c) merge
        if (hi->op == CONCAT) {
            Expr* m = hi->k[1];
            unsigned ml; Expr* mb = base(m, ml);
            if (mb == lb && m->op == EXTRACT && ml == ll + lo->w)
                return concat(hi->k[0], extract(lb, ll, m->w + lo->w));
            if (isC(m) && isC(lo)) return concat(hi->k[0], concat(m, lo));
        }
        if (hi->op == ZEXT) {
            Expr* in = concat(hi->k[0], lo);
            return zext(in, w);
        }
        return intern(CONCAT, w, 0, hi, lo, nullptr);
    }
    Expr* ite(Expr* cnd, Expr* a, Expr* b)
    {
        if (isC(cnd)) return cnd->val ? a : b;
        if (a == b) return a;
        if (cnd->op == NOT) return ite(cnd->k[0], b, a);
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->val ? cnd : notE(cnd);
            if (isC(a)) return a->val ? bin(OR, cnd, b) : bin(AND, notE(cnd), b);
            if (isC(b)) return b->val ? bin(OR, notE(cnd), a) : bin(AND, cnd, a);
        }
        if (a->op == ITE && a->k[0] == cnd) a = a->k[1];
        if (b->op == ITE && b->k[0] == cnd) b = b->k[2];
        if (a == b) return a;
        return intern(ITE, a->w, 0, cnd, a, b);
    }
    Expr* resize(Expr* e, unsigned w) { return e->w == w ? e : e->w < w ? zext(e, w) : extract(e, 0, w); }
    // x - k < n, as the range test k <= x < k + n, when that does not wrap
    Expr* shifted(Expr* a, u128 n)
    {
        unsigned w = a->w;
        if (w > 64 || a->op != ADD || !isC(a->k[1]) || a->k[1]->val == 0) return nullptr;
        u128 k = ((u128)1 << w) - a->k[1]->val, e = k + n;
        if (n == 0 || e > ((u128)1 << w)) return nullptr;
        Expr* lo = bin(ULE, c(k, w), a->k[0]);
        return e >> w ? lo : bin(AND, lo, bin(ULT, a->k[0], c(e, w)));
    }
    Expr* bin(Op op, Expr* a, Expr* b)
    {
        if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
        unsigned w  = a->w;
        unsigned rw = (op == EQ || op == ULT || op == ULE || op == SLT || op == SLE) ? 1 : w;
        if (isC(a) && isC(b)) return c(fold(op, w, a->val, b->val, w), rw);
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
        if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // const on the right
        if (op == SUB && isC(b)) return bin(ADD, a, c(0 - b->val, w));
        if (isC(b)) {
            u128 v = b->val;
            switch (op) {
            case ADD:
                if (v == 0) return a;
                if (a->op == ADD && isC(a->k[1])) return bin(ADD, a->k[0], c(a->k[1]->val + v, w));
                break;
            case MUL:
                if (v == 0) return b;
                if (v == 1) return a;
                if ((v & (v - 1)) == 0) {
                    unsigned s = 0; while ((v >> s) != 1) s++;
                    return bin(SHL, a, c(s, w));
                }
                break;
            case UDIV:
            case UREM: {
                if (v == 1) return op == UDIV ? a : c(0, w);
                if (v == 0) break;
                if ((v & (v - 1)) == 0) {
                    if (op == UREM) return bin(AND, a, c(v - 1, w));
                    unsigned s = 0; while ((v >> s) != 1) s++;
                    return bin(LSHR, a, c(s, w));
                }
                u128 u = ub(a);
                if (u < v) return op == UREM ? a : c(0, w);
                // x % m % v with v a divisor of m; x / m / v
                Expr* y = a;
                while ((y->op == ZEXT) || (y->op == EXTRACT && y->val == 0 && ub(y->k[0]) <= mask(y->w))) y = y->k[0];
                if (op == UREM && y->op == UREM && isC(y->k[1]) && y->k[1]->val && y->k[1]->val % v == 0) return resize(bin(UREM, y->k[0], c(v, y->w)), w);
                if (op == UDIV && y->op == UDIV && isC(y->k[1]) && y->k[1]->val && y->k[1]->val <= mask(y->w) / v) return resize(bin(UDIV, y->k[0], c(y->k[1]->val * v, y->w)), w);
                // (m * v * x + r) / v = m * x + r / v, (m * v * x + r) % v = r % v, unless the sum wraps around
                if (a->op == ADD && u < mask(w)) {
                    std::vector<Expr*> t{a}, mult, rest;
                    bool exact = true;
                    while (!t.empty()) {
                        Expr* e = t.back(); t.pop_back();
                        if (e->op == ADD) { exact = exact && ub(e->k[0]) <= mask(w) / 2 && ub(e->k[1]) <= mask(w) / 2; t.push_back(e->k[0]); t.push_back(e->k[1]); }
                        else if (isC(e) && e->val % v == 0) mult.push_back(e);
                        else if (e->op == MUL && isC(e->k[1]) && e->k[1]->val % v == 0 && ub(e->k[0]) <= mask(w) / e->k[1]->val) mult.push_back(e);
                        else rest.push_back(e);
                    }
                    if (exact && !mult.empty()) {
                        Expr* r = c(0, w);
                        for (Expr* e : rest) r = bin(ADD, r, e);
                        r = bin(op, r, b);
                        if (op == UDIV)
                            for (Expr* e : mult) r = bin(ADD, r, isC(e) ? c(e->val / v, w) : bin(MUL, e->k[0], c(e->k[1]->val / v, w)));
                        return r;
                    }
                }
                // as narrow as the values allow
                unsigned n = 1;
                while (n < w && (u >> n)) n++;
                if (n < w) return zext(bin(op, extract(a, 0, n), c(v, n)), w);
                break;
            }
            case AND:
                if (v == 0) return b;
                if (v == mask(w)) return a;
                if ((v & (v + 1)) == 0) { // low mask
                    unsigned n = 0; while ((v >> n) & 1) n++;
                    return zext(extract(a, 0, n), w);
                }
                if (a->op == AND && isC(a->k[1])) return bin(AND, a->k[0], c(a->k[1]->val & v, w));
                break;
            case OR:
                if (v == 0) return a;
                if (v == mask(w)) return b;
                break;
            case XOR:
                if (v == 0) return a;
                if (w == 1) return notE(a);
                if (a->op == XOR && isC(a->k[1])) return bin(XOR, a->k[0], c(a->k[1]->val ^ v, w));
                break;
            case SHL:
                if (v == 0) return a;
                if (v >= w) return c(0, w);
                return concat(extract(a, 0, w - (unsigned)v), c(0, (unsigned)v));
            case LSHR:
                if (v == 0) return a;
                if (v >= w) return c(0, w);
                return zext(extract(a, (unsigned)v, w - (unsigned)v), w);
            case ASHR:
                if (v == 0) return a;
                if (v >= w) v = w - 1;
                return sext(extract(a, (unsigned)v, w - (unsigned)v), w);
            case EQ:
                if (w == 1) return v ? a : notE(a);
                if (a->op == ZEXT) {
                    unsigned iw = a->k[0]->w;
                    if (v >> iw) return f;
                    return bin(EQ, a->k[0], c(v, iw));
                }
                if (a->op == SEXT) {
                    unsigned iw = a->k[0]->w;
                    if (c((u128)sx(v, iw), w)->val != v) return f;
                    return bin(EQ, a->k[0], c(v, iw));
                }
                if (a->op == ADD && isC(a->k[1])) return bin(EQ, a->k[0], c(v - a->k[1]->val, w));
                if (a->op == XOR && isC(a->k[1])) return bin(EQ, a->k[0], c(v ^ a->k[1]->val, w));
                if (a->op == CONCAT)
                    return bin(AND, bin(EQ, a->k[0], c(v >> a->k[1]->w, a->k[0]->w)),
                               bin(EQ, a->k[1], c(v, a->k[1]->w)));
                if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
                    bool x = a->k[1]->val == v, y = a->k[2]->val == v;
                    return x ? (y ? t : a->k[0]) : (y ? notE(a->k[0]) : f);
                }
                if (a->op == ITE && isC(a->k[1]) && a->k[1]->val != v) return bin(AND, notE(a->k[0]), bin(EQ, a->k[2], b));
                if (a->op == ITE && isC(a->k[2]) && a->k[2]->val != v) return bin(AND, a->k[0], bin(EQ, a->k[1], b));
                break;
            case ULT:
                if (v == 0) return f;
                if (v == 1) return bin(EQ, a, c(0, w));
                if (a->op == ZEXT) {
                    unsigned iw = a->k[0]->w;
                    if (v >> iw) return t;
                    return bin(ULT, a->k[0], c(v, iw));
                }
                if (Expr* r = shifted(a, v)) return r;
                break;
            case ULE:
                if (v == mask(w)) return t;
                if (v == 0) return bin(EQ, a, b);
                if (a->op == ZEXT) {
                    unsigned iw = a->k[0]->w;
                    if (v >> iw) return t;
                    return bin(ULE, a->k[0], c(v, iw));
                }
                if (Expr* r = shifted(a, v + 1)) return r;
                break;
            case SLT:
                if (a->op == ZEXT) {
                    i128 s = sx(v, w);
                    if (s <= 0) return f;
                    return bin(ULT, a, b);
                }
                break;
            case SLE:
                if (a->op == ZEXT) {
                    i128 s = sx(v, w);
                    if (s < 0) return f;
                    return bin(ULE, a, b);
                }
                break;
            default: break;
            }
            if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]))
                return ite(a->k[0], bin(op, a->k[1], b), bin(op, a->k[2], b));
        } else if (isC(a)) {
            u128 v = a->val;
            switch (op) {
            case ULT:
                if (v == mask(w)) return f;
                if (v == 0) return notE(bin(EQ, b, a));
                if (b->op == ZEXT) {
                    unsigned iw = b->k[0]->w;
                    if (v >> iw) return f;
                    return bin(ULT, c(v, iw), b->k[0]);
                }
                if (Expr* r = shifted(b, v + 1)) return notE(r);
                break;
            case ULE:
                if (v == 0) return t;
                if (v == 1) return notE(bin(EQ, b, c(0, w)));
                if (b->op == ZEXT) {
                    unsigned iw = b->k[0]->w;
                    if (v >> iw) return f;
                    return bin(ULE, c(v, iw), b->k[0]);
                }
                if (Expr* r = shifted(b, v)) return notE(r);
                break;
            case SLT:
                if (b->op == ZEXT) {
                    if (sx(v, w) < 0) return t;
                    return bin(ULT, a, b);
                }
                break;
            case SLE:
                if (b->op == ZEXT) {
                    if (sx(v, w) <= 0) return t;
                    return bin(ULE, a, b);
                }
                break;
            case SHL: case LSHR: case ASHR: case UDIV: case UREM:
                if (v == 0) return a;
                break;
            default: break;
            }
            if (b->op == ITE && isC(b->k[1]) && isC(b->k[2]))
                return ite(b->k[0], bin(op, a, b->k[1]), bin(op, a, b->k[2]));
        }
        if (a == b) {
            switch (op) {
            case SUB: case XOR: case UREM: case SREM: if (op == SUB || op == XOR) return c(0, w); break;
            case AND: case OR: return a;
            case EQ: case ULE: case SLE: return t;
            case ULT: case SLT: return f;
            default: break;
            }
        }
        if (op == XOR) { // (x ^ y) ^ y
            for (int sw = 0; sw < 2; sw++) {
                Expr *p = sw ? b : a, *q = sw ? a : b;
                if (p->op == XOR && p->k[0] == q) return p->k[1];
                if (p->op == XOR && p->k[1] == q) return p->k[0];
            }
        }
        if (w == 1) {
            if (op == AND && (a->op == NOT ? a->k[0] == b : b->op == NOT && b->k[0] == a)) return f;
            if (op == OR && (a->op == NOT ? a->k[0] == b : b->op == NOT && b->k[0] == a)) return t;
        }
        if ((op == EQ || op == ULT || op == ULE) && a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w)
            return bin(op, a->k[0], b->k[0]);
        if ((op == SLT || op == SLE) && a->op == ZEXT && b->op == ZEXT) return bin(op == SLT ? ULT : ULE, a, b);
        if (op == SUB) {
            if (a->op == ADD && a->k[1] == b) return a->k[0];
            if (a->op == ADD && a->k[0] == b) return a->k[1];
            // (x + c1) - (x + c2)
            Expr *xa = a, *xb = b; u128 ca = 0, cb = 0;
            if (a->op == ADD && isC(a->k[1])) { xa = a->k[0]; ca = a->k[1]->val; }
            if (b->op == ADD && isC(b->k[1])) { xb = b->k[0]; cb = b->k[1]->val; }
            if (xa == xb) return c(ca - cb, w);
        }
        if (op == EQ) {
            Expr *xa = a, *xb = b; u128 ca = 0, cb = 0;
            if (a->op == ADD && isC(a->k[1])) { xa = a->k[0]; ca = a->k[1]->val; }
            if (b->op == ADD && isC(b->k[1])) { xb = b->k[0]; cb = b->k[1]->val; }
            if (xa == xb && w > 1) return boolean(((ca - cb) & mask(w)) == 0);
        }
        if (op == ADD) { // hoist constants: (x + c) + y -> (x + y) + c
            if (a->op == ADD && isC(a->k[1])) return bin(ADD, bin(ADD, a->k[0], b), a->k[1]);
            if (b->op == ADD && isC(b->k[1])) return bin(ADD, bin(ADD, a, b->k[0]), b->k[1]);
        }
        if (op == OR && w > 1) {
            // disjoint zext/shl patterns: (hi ++ 0s) | zext(lo)
            for (int s = 0; s < 2; s++) {
                Expr *x = s ? b : a, *y = s ? a : b;
                if (x->op == CONCAT && isC(x->k[1]) && x->k[1]->val == 0 && y->op == ZEXT && y->k[0]->w <= x->k[1]->w)
                    return concat(x->k[0], zext(y->k[0], x->k[1]->w));
                if (x->op == ZEXT && x->k[0]->op == CONCAT && isC(x->k[0]->k[1]) && x->k[0]->k[1]->val == 0 && y->op == ZEXT
                    && y->k[0]->w <= x->k[0]->k[1]->w)
                    return zext(concat(x->k[0]->k[0], zext(y->k[0], x->k[0]->k[1]->w)), w);
            }
        }
        return intern(op, rw, 0, a, b, nullptr);
    }

    const std::vector<uint32_t>& vars(Expr* e)
    {
        if (e->vars) return *e->vars;
        // iterative post-order
        std::vector<Expr*> st{e};
        while (!st.empty()) {
            Expr* x = st.back();
            if (x->vars) { st.pop_back(); continue; }
            bool ready = true;
            for (int i = 0; i < x->nk; i++)
                if (!x->k[i]->vars) { st.push_back(x->k[i]); ready = false; }
            if (!ready) continue;
            st.pop_back();
            auto* v = new std::vector<uint32_t>();
            if (x->op == VAR) v->push_back((uint32_t)x->val);
            else {
                for (int i = 0; i < x->nk; i++) v->insert(v->end(), x->k[i]->vars->begin(), x->k[i]->vars->end());
                std::sort(v->begin(), v->end());
                v->erase(std::unique(v->begin(), v->end()), v->end());
            }
            x->vars = v;
        }
        return *e->vars;
    }

    // evaluation under a model (vector by var index; missing = 0)
    u128 eval(Expr* e, const std::vector<u64>& m) { gen++; return evalr(e, m); }
    u128 evalr(Expr* e, const std::vector<u64>& m)
    {
        if (e->op == CONST) return e->val;
        if (e->ev_gen == gen) return e->ev_val;
        u128 r;
        switch (e->op) {
        case VAR: r = (e->val < m.size() ? (u128)m[(size_t)e->val] : 0) & mask(e->w); break;
        case NOT: r = !evalr(e->k[0], m); break;
        case ZEXT: r = evalr(e->k[0], m); break;
        case SEXT: r = (u128)sx(evalr(e->k[0], m), e->k[0]->w) & mask(e->w); break;
        case EXTRACT: r = (evalr(e->k[0], m) >> (unsigned)e->val) & mask(e->w); break;
        case CONCAT: { u128 h = evalr(e->k[0], m); r = (h << e->k[1]->w) | evalr(e->k[1], m); break; }
        case ITE: r = evalr(e->k[0], m) ? evalr(e->k[1], m) : evalr(e->k[2], m); break;
        default:
            if (e->op >= FLT) { u128 x = evalr(e->k[0], m), y = e->k[1] ? evalr(e->k[1], m) : 0; r = foldfp(e, x, y); break; }
            { u128 x = evalr(e->k[0], m), y = evalr(e->k[1], m); r = fold(e->op, e->k[0]->w, x, y, e->k[0]->w); }
        }
        e->ev_gen = gen;
        e->ev_val = r;
        return r;
    }
    // number of known-zero trailing bits
    unsigned tz(Expr* e)
    {
        switch (e->op) {
        case CONST: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
        case ADD: case SUB: case OR: case XOR: return std::min(tz(e->k[0]), tz(e->k[1]));
        case MUL: return std::min<unsigned>(e->w, tz(e->k[0]) + tz(e->k[1]));
        case AND: return std::max(tz(e->k[0]), tz(e->k[1]));
        case ZEXT: case SEXT: return e->k[0]->op == CONST ? tz(e->k[0]) : (tz(e->k[0]) >= e->k[0]->w ? e->w : tz(e->k[0]));
        case CONCAT: { unsigned l = tz(e->k[1]); return l >= e->k[1]->w ? e->k[1]->w + tz(e->k[0]) : l; }
        case ITE: return std::min(tz(e->k[1]), tz(e->k[2]));
        case EXTRACT: if (e->val == 0) return std::min<unsigned>(e->w, tz(e->k[0])); return 0;
        default: return 0;
        }
    }
    // crude unsigned upper bound
    u128 ub(Expr* e, unsigned depth = 10)
    {
        if (!depth--) return mask(e->w);
        switch (e->op) {
        case CONST: return e->val;
        case ZEXT: return ub(e->k[0], depth);
        case ITE: return std::max(ub(e->k[1], depth), ub(e->k[2], depth));
        case AND: return std::min(ub(e->k[0], depth), ub(e->k[1], depth));
        case UREM: if (isC(e->k[1]) && e->k[1]->val) return std::min(ub(e->k[0], depth), e->k[1]->val - 1); return mask(e->w);
        case ADD: { u128 a = ub(e->k[0], depth), b = ub(e->k[1], depth); if (a <= mask(e->w) / 2 && b <= mask(e->w) / 2) return a + b; return mask(e->w); }
        case CONCAT: return (ub(e->k[0], depth) << e->k[1]->w) | ub(e->k[1], depth);
        case UDIV: if (isC(e->k[1]) && e->k[1]->val) return ub(e->k[0], depth) / e->k[1]->val; return mask(e->w);
        case EXTRACT: if (e->val == 0) return std::min(ub(e->k[0], depth), mask(e->w)); return mask(e->w);
        case MUL: { u128 a = ub(e->k[0], depth), b = ub(e->k[1], depth); if (a == 0 || b == 0) return 0; if (a <= mask(e->w) / b) return a * b; return mask(e->w); }
        default: return mask(e->w);
        }
    }
    std::string str(Expr* e, int depth = 6)
    {
        static const char* names[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","not","ite","flt","fle","feq","funo","fadd","fsub","fmul","fdiv","ffromu","ffroms","ftou","ftos","fcvt"};
        if (e->op == CONST) { char b[64]; snprintf(b, 64, "%llu", (unsigned long long)e->val); return b; }
        if (e->op == VAR) { char b[64]; snprintf(b, 64, "v%llu:%u", (unsigned long long)e->val, e->w); return b; }
        if (!depth) return "...";
        std::string s = "(" + std::string(names[e->op]);
        if (e->op == EXTRACT) s += "@" + std::to_string((unsigned)e->val) + ":" + std::to_string(e->w);
        for (int i = 0; i < e->nk; i++) s += " " + str(e->k[i], depth - 1);
        return s + ")";
    }
};
