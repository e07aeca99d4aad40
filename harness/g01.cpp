// G01: the computed flow is valid and maximum.
#include "common.hpp"
#include <sse/schemes/tethys/details/tethys_graph.hpp>
using namespace sse::tethys::details;
struct E { size_t s, t; uint64_t cap; EdgePtr p; };
static const size_t SRC = 100, SNK = 101;
static size_t bit(size_t v, size_t n) { return v == SRC ? n : v == SNK ? n + 1 : v; }
extern "C" void vf_entry()
{
    const size_t N = vf_param("N", 2), M = vf_param("M", 3); // vertices; internal edges
    const uint64_t CAPB = vf_param("capbits", 32);
    TethysGraph g(N);
    std::vector<E> e;
    auto cap = [&]() -> uint64_t { return vf_sym("cap", static_cast<unsigned>(CAPB)); };
    const bool src_late = vf_param("late", 0), roles = vf_param("roles", 0), halves = vf_param("halves", 0), useful = roles && vf_param("useful", 0);
    std::vector<size_t> role(N, 2), degree(N, 0);
    auto outer = [&]() {
        for (size_t v = 0; v < N; v++) {
            if (roles) { // either a source or a sink edge: long augmenting paths, fewer cases
                uint64_t c = cap();
                role[v] = halves ? 2 * v >= N : vf_choice("role", 2);
                if (role[v]) e.push_back({v, SNK, c, g.add_edge_to_sink(v, c, v)});
                else e.push_back({SRC, v, c, g.add_edge_from_source(v, c, v)});
                continue;
            }
            uint64_t c = cap();
            e.push_back({SRC, v, c, g.add_edge_from_source(v, c, v)});
            c = cap();
            e.push_back({v, SNK, c, g.add_edge_to_sink(v, c, v)});
        }
    };
    if (!src_late) outer();
    for (size_t i = 0; i < M; i++) { // every internal edge, self loops and parallel edges included
        const size_t X = vf_param("ext", 0) ? N + 1 : N;
        size_t s = vf_choice("from", X), t = vf_choice("to", X);
        uint64_t c = cap();
        if (s == N && t == N) vf_skip();
        if (roles && s == t) vf_skip();
        if (useful) {
            // leave out graphs in which some source or sink edge cannot carry flow: the smaller jobs have them
            if (role[s] == 0) degree[s]++;
            if (role[t] == 1) degree[t]++;
            if (i + 1 == M) for (size_t v = 0; v < N; v++) if (degree[v] == 0) vf_skip();
        }
        if (s == N) e.push_back({SRC, t, c, g.add_edge_from_source(i, c, t)});
        else if (t == N) e.push_back({s, SNK, c, g.add_edge_to_sink(i, c, s)});
        else e.push_back({s, t, c, g.add_edge(i, c, s, t)});
    }
    if (src_late) outer();
    g.compute_residual_maxflow();
    g.transform_residual_to_flow();
    const size_t S = N, T = N + 1;
    std::vector<uint64_t> in(N + 2, 0), out(N + 2, 0);
    uint64_t total = 0;
    for (auto& x : e) {
        uint64_t f = g.get_edge_flow(x.p);
        vf_check(g.get_edge_capacity(x.p) == x.cap, "capacity is unchanged");
        vf_check(f <= x.cap, "flow does not exceed the capacity");
        in[bit(x.t, N)] += f;
        out[bit(x.s, N)] += f;
        vf_observe(f);
    }
    for (size_t v = 0; v < N; v++) {
        vf_check(in[v] == out[v], "flow is conserved at every vertex");
        vf_check(g.get_vertex_in_flow(VertexPtr(v)) == in[v], "vertex in-flow accessor");
        vf_check(g.get_vertex_out_flow(VertexPtr(v)) == out[v], "vertex out-flow accessor");
    }
    total = g.get_flow();
    vf_check(total == out[S], "total flow is what leaves the source");
    vf_check(total == in[T], "total flow is what enters the sink");
    // maximality: vertices reachable in the residual graph; boolean fixpoint without branching
    std::vector<uint64_t> r(N + 2, 0);
    r[S] = 1;
    for (size_t it = 0; it < N + 1; it++)
        for (auto& x : e) {
            uint64_t f = g.get_edge_flow(x.p);
            size_t a = bit(x.s, N), b = bit(x.t, N);
            r[b] |= r[a] & static_cast<uint64_t>(f != x.cap);
            r[a] |= r[b] & static_cast<uint64_t>(f != 0);
        }
    vf_check(r[T] == 0, "no augmenting path remains");
    uint64_t cut = 0;
    for (auto& x : e) {
        size_t a = bit(x.s, N), b = bit(x.t, N);
        cut += vf_ite((r[a] & (r[b] ^ 1)) != 0, x.cap, 0);
    }
    vf_check(cut == total, "the flow value equals a cut of the graph");
    vf_observe(total);
    REACH("checked");
}
