// G02: misuse of the graph is rejected and leaves it unchanged; edge pointers identify the inserted edge.
#include "common.hpp"
#include <sse/schemes/tethys/details/tethys_graph.hpp>
using namespace sse::tethys::details;
struct Rec { size_t kind, vi, cap, a, b; EdgePtr p; }; // kind 0 internal, 1 source, 2 sink
static void check_all(TethysGraph& g, const std::vector<Rec>& r, size_t N)
{
    std::vector<size_t> in(N, 0), out(N, 0);
    size_t so = 0, si = 0;
    for (size_t i = 0; i < r.size(); i++) {
        const Rec& x = r[i];
        const Edge& e = g.get_edge(x.p);
        vf_check(!x.p.is_reciprocal && x.p.index == i, "edge pointers are consecutive");
        vf_check(e.value_index == x.vi && e.capacity == x.cap, "edge keeps its index and capacity");
        vf_check(g.get_edge_capacity(x.p) == x.cap, "edge capacity accessor");
        vf_check(x.kind == 1 ? e.start == kSourcePtr : e.start == VertexPtr(x.a), "edge start");
        vf_check(x.kind == 2 ? e.end == kSinkPtr : e.end == VertexPtr(x.b), "edge end");
        if (x.kind == 1) so++; else out[x.a]++;
        if (x.kind == 2) si++; else in[x.b]++;
    }
    for (size_t v = 0; v < N; v++) {
        vf_check(g.get_vertex(VertexPtr(v)).in_edges.size() == in[v], "in-edges are exactly the inserted ones");
        vf_check(g.get_vertex(VertexPtr(v)).out_edges.size() == out[v], "out-edges are exactly the inserted ones");
        uint64_t ic = 0, oc = 0;
        for (auto& x : r) {
            if (x.kind != 2 && x.b == v) ic += x.cap;
            if (x.kind != 1 && x.a == v) oc += x.cap;
        }
        vf_check(g.get_vertex_in_capacity(VertexPtr(v)) == ic, "vertex in-capacity");
        vf_check(g.get_vertex_out_capacity(VertexPtr(v)) == oc, "vertex out-capacity");
    }
    vf_check(g.get_vertex(kSourcePtr).out_edges.size() == so && g.get_vertex(kSourcePtr).in_edges.empty(), "source edges");
    vf_check(g.get_vertex(kSinkPtr).in_edges.size() == si && g.get_vertex(kSinkPtr).out_edges.empty(), "sink edges");
}
static void expect_no_flow(TethysGraph& g, const std::vector<Rec>& r)
{
    vf_check(throws<std::invalid_argument>([&] { g.get_flow(); }, "get_flow exception type"), "get_flow is rejected before the computation");
    for (auto& x : r) vf_check(throws<std::invalid_argument>([&] { g.get_edge_flow(x.p); }, "get_edge_flow exception type"), "get_edge_flow is rejected before the computation");
    vf_check(throws<std::invalid_argument>([&] { g.get_vertex_in_flow(VertexPtr(0)); }, "exception type"), "get_vertex_in_flow is rejected before the computation");
    vf_check(throws<std::invalid_argument>([&] { g.get_vertex_out_flow(VertexPtr(0)); }, "exception type"), "get_vertex_out_flow is rejected before the computation");
}
extern "C" void vf_entry()
{
    vf_check(throws<std::invalid_argument>([] { TethysGraph z(0); }, "exception type"), "an empty graph is rejected");
    const size_t N = vf_param("N", 2), M = vf_param("M", 3);
    TethysGraph g(N);
    std::vector<Rec> r;
    for (size_t i = 0; i < M; i++) { // any edge kind with arbitrary (also out-of-range) 64-bit endpoints
        size_t kind = vf_choice("kind", 3);
        uint64_t a = vf_sym("a", 64), b = vf_sym("b", 64), vi = vf_sym("vi", 64), cap = vf_sym("cap", 64);
        bool bad = kind == 0 ? (a >= N) | (b >= N) : kind == 1 ? b >= N : a >= N;
        EdgePtr p;
        bool thrown = throws<std::out_of_range>([&] { p = kind == 0 ? g.add_edge(vi, cap, a, b) : kind == 1 ? g.add_edge_from_source(vi, cap, b) : g.add_edge_to_sink(vi, cap, a); },
                                                "wrong exception for an out-of-range endpoint");
        vf_check(thrown == bad, "an edge is accepted exactly if its endpoints are in range");
        if (!thrown) {
            if (kind != 1) a = vf_concretize(a);
            if (kind != 2) b = vf_concretize(b);
            r.push_back({kind, vi, cap, a, b, p});
            REACH("accepted");
        } else REACH("rejected");
        vf_observe(thrown);
    }
    check_all(g, r, N);
    expect_no_flow(g, r);
    vf_check(throws<std::invalid_argument>([&] { g.transform_residual_to_flow(); }, "exception type"), "flow cannot be extracted before the computation");
    check_all(g, r, N);
    if (vf_param("compute", 1) == 0) return;
    for (auto& x : r) vf_assume(x.cap < (1ull << 60));
    const size_t how = vf_choice("order", 3); // 0: full computation, 1: stop at the residual
    g.compute_residual_maxflow();
    auto misuse = [&] {
        vf_check(throws<std::invalid_argument>([&] { g.add_edge(1, 1, 0, 0); }, "exception type"), "add_edge is rejected after the computation");
        vf_check(throws<std::invalid_argument>([&] { g.add_edge_from_source(1, 1, 0); }, "exception type"), "add_edge_from_source is rejected after the computation");
        vf_check(throws<std::invalid_argument>([&] { g.add_edge_to_sink(1, 1, 0); }, "exception type"), "add_edge_to_sink is rejected after the computation");
        vf_check(throws<std::invalid_argument>([&] { g.compute_residual_maxflow(); }, "exception type"), "a second computation is rejected");
        check_all(g, r, N);
    };
    misuse();
    expect_no_flow(g, r);
    if (how == 1) { REACH("residual"); return; }
    g.transform_residual_to_flow();
    std::vector<uint64_t> fl;
    for (auto& x : r) fl.push_back(g.get_edge_flow(x.p));
    uint64_t f = g.get_flow();
    misuse();
    vf_check(throws<std::invalid_argument>([&] { g.transform_residual_to_flow(); }, "exception type"), "flow cannot be extracted twice");
    vf_check(g.get_flow() == f, "rejected calls do not change the flow");
    for (size_t i = 0; i < r.size(); i++) vf_check(g.get_edge_flow(r[i].p) == fl[i], "rejected calls do not change an edge's flow");
    REACH("flow");
}
