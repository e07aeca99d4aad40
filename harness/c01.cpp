// C01: one insertion into an arbitrary valid cuckoo table state (inductive step).
#include "common.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <atomic>
#include <sse/crypto/prf.hpp>
#include <sse/schemes/abstractio/awonvm_vector.hpp>
#define private public
#include <sse/schemes/oceanus/details/cuckoo.hpp>
#undef private
using namespace sse::oceanus;
using details::CuckooAllocator;
extern "C" void vf_entry()
{
    const uint64_t S = vf_param("S", 2), HB = vf_param("hbits", 64), D = vf_param("depth", 99);
    const size_t depth = D == 99 ? vf_choice("depth", 6) : D;
    CuckooAllocator a(S, depth);
    vf_check(a.get_cuckoo_table_size() == S, "table size");
    struct El { bool in; uint64_t h0, h1; size_t idx; } el[16];
    const size_t N = 2 * S;
    for (size_t i = 0; i <= N; i++) {
        El& e = el[i];
        e.h0 = vf_sym("h0", HB);
        e.h1 = vf_sym("h1", HB);
        e.idx = 100 + i;
        e.in = i == N || vf_choice("occupied", 2);
        if (i == N) { // the new element: any index
            e.idx = vf_sym("index", 64);
            for (size_t j = 0; j < N; j++) vf_assume(e.idx != el[j].idx);
        } else if (e.in) {
            bool t1 = i >= S;
            vf_assume((t1 ? e.h1 : e.h0) % S == (t1 ? i - S : i));
            auto& slot = (t1 ? a.table_1 : a.table_0)[t1 ? i - S : i];
            slot.key.h[0] = e.h0;
            slot.key.h[1] = e.h1;
            slot.value_index = e.idx;
        }
    }
    El& nw = el[N];
    CuckooKey k;
    k.h[0] = nw.h0;
    k.h[1] = nw.h1;
    size_t r = 0;
    if (nw.idx == ~size_t(0)) {
        vf_check(throws<std::invalid_argument>([&] { a.insert(k, nw.idx); }, "exception type"), "the reserved index is refused");
        nw.in = false;
        r = ~size_t(0);
        REACH("reserved");
    } else r = a.insert(k, nw.idx);
    // every element is in exactly one place: a slot allowed by its own hash, or (one at most) handed back
    size_t seen[16] = {};
    for (size_t t = 0; t < 2; t++) {
        auto& tab = t ? a.table_1 : a.table_0;
        vf_check(tab.size() == S, "table length unchanged");
        for (size_t s = 0; s < S; s++) {
            if (tab[s].value_index == ~size_t(0)) continue;
            bool found = false;
            for (size_t i = 0; i <= N; i++)
                if (el[i].in && tab[s].value_index == el[i].idx) {
                    found = true;
                    seen[i]++;
                    vf_check((tab[s].key.h[0] == el[i].h0) & (tab[s].key.h[1] == el[i].h1), "element keeps its key");
                    vf_check((t ? el[i].h1 : el[i].h0) % S == s, "element is stored at a slot allowed by its hash");
                }
            vf_check(found, "a stored element was inserted");
        }
    }
    for (size_t i = 0; i <= N; i++) {
        if (!el[i].in) continue;
        bool back = r == el[i].idx;
        if (back) REACH("spill");
        vf_check(seen[i] + back == 1, "every element is stored exactly once or handed back");
    }
    if (r != ~size_t(0)) {
        bool known = false;
        for (size_t i = 0; i <= N; i++) known = known || (el[i].in && r == el[i].idx);
        vf_check(known, "the element handed back is one of the elements");
        // enough depth: only an over-full component spills
        if (depth >= 2 * (N + 1) + 2) {
            size_t c0 = 0, vs = 0, es = 0;
            std::array<bool, 16> in{};
            in[vf_concretize(nw.h0 % S)] = in[S + vf_concretize(nw.h1 % S)] = true;
            for (c0 = 0; c0 <= N; c0++)
                for (size_t i = 0; i < N; i++)
                    if (el[i].in) {
                        size_t x = vf_concretize(el[i].h0 % S), y = S + vf_concretize(el[i].h1 % S);
                        if (in[x] || in[y]) in[x] = in[y] = true;
                    }
            for (size_t v = 0; v < N; v++) vs += in[v];
            for (size_t i = 0; i <= N; i++)
                if (el[i].in && in[vf_concretize(el[i].h0 % S)]) es++;
            vf_check(es > vs, "with enough depth nothing spills while the table can hold all the elements");
            REACH("overfull");
        }
    } else REACH("stored");
    size_t total = 0;
    for (auto it = a.table_0_begin(); it != a.table_0_end(); ++it) total += !CuckooAllocator::is_empty_placeholder(it->value_index);
    for (auto it = a.table_1_begin(); it != a.table_1_end(); ++it) total += !CuckooAllocator::is_empty_placeholder(it->value_index);
    size_t expect = 0;
    for (size_t i = 0; i <= N; i++) expect += el[i].in;
    vf_check(total + (r != ~size_t(0)) == expect, "element count");
}
