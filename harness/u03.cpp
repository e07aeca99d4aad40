// U03: iterating over the concatenation of two containers, of every size, with every content.
#include "common.hpp"
#include <list>
#include <memory>
#include <sse/schemes/utils/concat_iterator.hpp>
using namespace sse::utility;
template<class It, class C> static void walk(C& a, C& b, const std::vector<uint64_t>& want, const char* l)
{
    std::vector<It> seen; // every position
    It it(a, b), end(a, b, b.end(), true);
    size_t n = 0, post = vf_choice("postfix", 2);
    while (it != end) {
        vf_check(n < want.size(), "no element is visited twice");
        vf_check(*it == want[n], "the elements of the first, then of the second container, in order");
        seen.push_back(it);
        n++;
        if (post) {
            It old = it++;
            vf_check(old == seen.back() && *old == want[n - 1], "postfix increment returns the previous position");
        } else {
            It& r = ++it;
            vf_check(&r == &it, "prefix increment returns the iterator");
        }
        vf_check(!(it == seen.back()) && it != seen.back(), "the iterator moved");
    }
    vf_check(it == end && !(it != end), "end reached");
    vf_check(n == want.size(), "every element is visited");
    seen.push_back(it);
    for (size_t i = 0; i < seen.size(); i++)
        for (size_t j = 0; j < seen.size(); j++) vf_check((seen[i] == seen[j]) == (i == j) && (seen[i] != seen[j]) == (i != j), "positions are equal exactly if they are the same");
    // explicit positions
    size_t i = 0;
    for (auto p = a.begin(); p != a.end(); ++p, ++i) vf_check(It(a, b, p, false) == seen[i], "position in the first container");
    vf_check(It(a, b, a.end(), false) == seen[i], "the end of the first container is the beginning of the second");
    for (auto p = b.begin(); p != b.end(); ++p, ++i) vf_check(It(a, b, p, true) == seen[i], "position in the second container");
    REACH(l);
}
template<class C> static void both(const char* l)
{
    size_t max = vf_param("max", 3);
    std::vector<uint64_t> x(vf_choice("first", max + 1)), y(vf_choice("second", max + 1)), want;
    for (auto& v : x) want.push_back(v = vf_sym("element", 64));
    for (auto& v : y) want.push_back(v = vf_sym("element", 64));
    C a(x.begin(), x.end()), b(y.begin(), y.end());
    if (vf_choice("const", 2))
        walk<concat_const_iterator<C>, const C>(a, b, want, "const");
    else {
        walk<concat_iterator<C>, C>(a, b, want, l);
        // writing through the iterator
        size_t n = 0;
        for (concat_iterator<C> it(a, b), e(a, b, b.end(), true); it != e; ++it) *it = want[n++] + 1;
        n = 0;
        for (auto v : a) vf_check(v == want[n++] + 1, "written in place");
        for (auto v : b) vf_check(v == want[n++] + 1, "written in place");
    }
    if (x.empty() || y.empty()) REACH("empty");
}
// adjacent arrays: the end of the first has the address of the start of the second
struct Span {
    using value_type = uint64_t; using size_type = size_t; using difference_type = ptrdiff_t;
    using iterator = uint64_t*; using const_iterator = const uint64_t*;
    uint64_t *p; size_t n;
    iterator begin() { return p; }
    iterator end() { return p + n; }
    const_iterator begin() const { return p; }
    const_iterator end() const { return p + n; }
};
static void adjacent()
{
    size_t max = vf_param("max", 3), n = vf_choice("first", max + 1), m = vf_choice("second", max + 1);
    std::vector<uint64_t> buf(n + m + 1);
    for (auto& v : buf) v = vf_sym("element", 64);
    std::vector<uint64_t> fwd(buf.begin(), buf.begin() + n + m), rev(buf.begin() + n, buf.begin() + n + m);
    rev.insert(rev.end(), buf.begin(), buf.begin() + n);
    Span a{buf.data(), n}, b{buf.data() + n, m};
    bool r = vf_choice("reversed", 2);
    if (vf_choice("const", 2)) walk<concat_const_iterator<Span>, const Span>(r ? b : a, r ? a : b, r ? rev : fwd, "adjacent const");
    else walk<concat_iterator<Span>, Span>(r ? b : a, r ? a : b, r ? rev : fwd, "adjacent");
}
extern "C" void vf_entry()
{
    switch (vf_choice("container", 3)) {
    case 0: both<std::vector<uint64_t>>("vector"); break;
    case 1: both<std::list<uint64_t>>("list"); break;
    default: adjacent();
    }
}
