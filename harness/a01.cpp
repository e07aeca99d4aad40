// A01/A02: the Tethys allocator places every element once within the page capacity (A01), with as few stashed elements as possible (A02).
#include "common.hpp"
#include <sse/schemes/tethys/details/tethys_allocator.hpp>
using namespace sse::tethys::details;
struct L { size_t h0, h1; uint64_t len; };
extern "C" void vf_entry()
{
    const size_t N = vf_param("N", 2), M = vf_param("M", 2), which = vf_param("which", 1);
    const unsigned CB = static_cast<unsigned>(vf_param("bits", 58));
    uint64_t page = vf_param("page", 0) ? vf_param("page", 0) : vf::range("page", 1, (uint64_t(1) << CB) - 1, CB);
    TethysAllocator a(N, page);
    std::vector<L> l;
    size_t prev = 0;
    for (size_t i = 0; i < M; i++) {
        // every multiset of candidate pairs, in one canonical order unless asked otherwise
        size_t p = vf_choice("buckets", N * N);
        if (vf_param("sorted", 0)) { if (p < prev) vf_skip(); prev = p; }
        L x{p / N, p % N, vf_sym("len", CB)};
        vf_assume(x.len <= page);
        a.insert(TethysAllocatorKey(x.h0, x.h1, (i & 1) ? ForcedLeft : ForcedRight), x.len, i);
        l.push_back(x);
    }
    if (which == 1) {
        vf_check(throws<std::invalid_argument>([&] { a.get_stashed_edges(); }, "exception type"), "the stash cannot be read before the allocation");
        vf_check(throws<std::invalid_argument>([&] { a.get_allocation_graph(); }, "exception type"), "the graph cannot be read before the allocation");
        if (vf_param("bad", 0)) {
            uint64_t big = vf_sym("long", 64);
            vf_assume(big > page);
            vf_check(throws<std::invalid_argument>([&] { a.insert(TethysAllocatorKey(size_t(0), size_t(0), ForcedLeft), big, 77); }, "exception type"), "a list longer than a page is rejected");
            vf_check(throws<std::invalid_argument>([&] { a.insert(TethysAllocatorKey(size_t(0), size_t(0), ForcedLeft), 0, ~0UL); }, "exception type"), "the reserved index is rejected");
            uint64_t bk = vf_sym("badbucket", 64);
            vf_assume(bk >= N);
            vf_check(throws_any([&] { a.insert(TethysAllocatorKey(vf_choice("end", 2) ? bk : 0, bk, ForcedLeft), 0, 78); }), "a bucket outside the table is rejected");
        }
    }
    vf_check(!a.has_allocated(), "not allocated yet");
    a.allocate();
    vf_check(a.has_allocated(), "allocated");
    const TethysGraph& g = a.get_allocation_graph();
    const std::set<EdgePtr>& st = a.get_stashed_edges();
    std::vector<uint64_t> load(N, 0);
    std::vector<unsigned> seen(M, 0);
    uint64_t stash = 0, total = 0;
    size_t nst = 0;
    for (size_t v = 0; v < N; v++) for (EdgePtr ep : g.inner_vertices()[VertexPtr(v)].out_edges) {
        const Edge& e = g.get_edge(ep);
        if (e.value_index == TethysAllocator::kEmptyIndexValue) {
            vf_check(st.count(ep) == 0, "only lists are stashed");
            continue;
        }
        vf_check(e.value_index < M, "known list");
        size_t k = e.value_index;
        seen[k]++;
        vf_check((e.start.index == l[k].h0) & (e.end.index == l[k].h1), "the list keeps its candidate buckets");
        vf_check(e.capacity == l[k].len, "the list keeps its length");
        vf_check((e.flow <= e.capacity) & (e.rec_flow <= e.capacity), "no more elements than the list has");
        vf_check(e.flow + e.rec_flow <= e.capacity, "bucket parts fit in the list");
        uint64_t over = e.capacity - e.flow - e.rec_flow;
        load[e.start.index] += e.flow;
        load[e.end.index] += e.rec_flow;
        stash += over;
        total += e.capacity;
        bool in = st.count(ep) != 0;
        nst += in;
        if (which == 1) vf_check(in == (over != 0), "a list is in the stash exactly when it has overflow");
    }
    for (size_t i = 0; i < M; i++) vf_check(seen[i] == 1, "every list appears once");
    if (which == 1) {
        vf_check(nst == st.size(), "the stash holds lists only");
        for (size_t v = 0; v < N; v++) vf_check(load[v] <= page, "no bucket holds more than a page");
        vf_check(throws<std::invalid_argument>([&] { a.allocate(); }, "exception type"), "a second allocation is rejected");
        vf_check(throws<std::invalid_argument>([&] { a.insert(TethysAllocatorKey(size_t(0), size_t(0), ForcedLeft), 0, 79); }, "exception type"), "insertion after the allocation is rejected");
    } else {
        // max number of placed elements = min over bucket sets S of |S| pages + the lists not confined to S  (max-flow min-cut)
        uint64_t placed = total - stash;
        bool attained = false;
        for (size_t S = 0; S < (size_t(1) << N); S++) {
            uint64_t c = 0;
            for (size_t v = 0; v < N; v++) if (S >> v & 1) c += page;
            for (auto& x : l) if (!((S >> x.h0 & 1) && (S >> x.h1 & 1))) c += x.len;
            attained = attained | (placed >= c);
        }
        vf_check(attained, "no placement stashes fewer elements");
    }
    vf_observe(stash);
    if (nst) REACH("stashed");
    else REACH("no stash");
}
