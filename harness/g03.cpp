// G03: the parallel computation gives the same flow value as the serial one, on every schedule.
#include "common.hpp"
#include <sse/schemes/tethys/details/tethys_graph.hpp>
using namespace sse::tethys::details;
struct E { size_t s, t; uint64_t cap; EdgePtr p, q; };
static const size_t SRC = 100, SNK = 101;
extern "C" void vf_entry()
{
    const size_t N = vf_param("N", 2), M = vf_param("M", 1), W = vf_param("workers", 2);
    const unsigned CB = static_cast<unsigned>(vf_param("capbits", 60));
    const bool fixed = vf_param("fixed", 0);
    TethysGraph g(N), h(N);
    std::vector<E> e;
    auto add = [&](size_t s, size_t t) {
        uint64_t c = fixed ? 1 + e.size() % 3 : vf_sym("cap", CB);
        if (s == SRC) e.push_back({s, t, c, g.add_edge_from_source(t, c, t), h.add_edge_from_source(t, c, t)});
        else if (t == SNK) e.push_back({s, t, c, g.add_edge_to_sink(s, c, s), h.add_edge_to_sink(s, c, s)});
        else e.push_back({s, t, c, g.add_edge(0, c, s, t), h.add_edge(0, c, s, t)});
    };
    for (size_t v = 0; v < N; v++) { add(SRC, v); add(v, SNK); }
    for (size_t i = 0; i < M; i++) {
        size_t s = fixed ? (2 * i) % N : vf_choice("from", N), t = fixed ? (2 * i + 1) % N : vf_choice("to", N);
        add(s, t);
    }
    h.compute_residual_maxflow();
    h.transform_residual_to_flow();
    uint64_t want = h.get_flow();
    {
        ThreadPool pool(static_cast<unsigned>(W));
        g.parallel_compute_residual_maxflow(pool);
        vf_check(throws<std::invalid_argument>([&] { g.get_flow(); }, "exception type"), "the parallel computation leaves the residual state");
        vf_check(throws<std::invalid_argument>([&] { g.parallel_compute_residual_maxflow(pool); }, "exception type"), "a second computation is rejected");
    }
    g.transform_residual_to_flow();
    vf_check(g.get_flow() == want, "parallel flow value equals the serial one");
    std::vector<uint64_t> in(N, 0), out(N, 0);
    for (auto& x : e) {
        uint64_t f = g.get_edge_flow(x.p);
        vf_check(f <= x.cap, "flow does not exceed the capacity");
        if (x.t != SNK) in[x.t] += f;
        if (x.s != SRC) out[x.s] += f;
    }
    for (size_t v = 0; v < N; v++) vf_check(in[v] == out[v], "flow is conserved at every vertex");
    vf_observe(want);
    REACH("checked");
}
