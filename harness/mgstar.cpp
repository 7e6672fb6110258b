// Proofs of mgstar with memory enough, against the contracts in search_stub.hpp; what drops nodes when memory runs short is
// only run, within bounds.
// vc-opts (S0\d)__prove_mgstar\w* {"replace": {"solver_utils::rbacktrack(_noreverse)?<": "vch_route"}}
#include <memory_resource>
#include <cstddef>
#include <optional>
#define STACK_HPP
namespace chdr {
// nodes that may be given back when memory runs short
template <typename T> class stack {
public:
  explicit stack(std::pmr::memory_resource*) {} template <class M> explicit stack(M*) {}
  bool empty() const { return true; } size_t size() const { return 0; }
  template <class... A> void emplace(A&&...) {} void push(const T&) {} void pop() {} void clear() {}
  T& top() { static T t; return t; } T& back() { static T t; return t; }
};
}
#include "search_stub.hpp"
#ifndef VC_NATIVE
namespace ss {
// std::optional for the best node: what it holds is in the ghost state
template <class N> struct best_node {
  best_node() {} best_node(std::nullopt_t) {}
  bool has_value() const { return G.has; } explicit operator bool() const { return G.has; }
  N& value() const { vc_check(G.has, "only a node that was kept is read"); return *(N*)G.kept; }
  N& operator*() const { return value(); } N* operator->() const { return &value(); }
  template <class... A> N& emplace(A&&... a) {
    auto* x = (N*)::operator new(sizeof(N)); new (x) N(std::forward<A>(a)...); const auto& w = *(view*)x;
    ck(ROUTE | COMPLETE | SHORTEST, w.m_index == G.goal, "the node kept is the goal");
    ck(ROUTE | SHORTEST, (w.m_index == G.idx) & (w.m_parent == G.par) & G.popped, "the node kept is the one taken");
    if (G.has) ck(SHORTEST, x->m_gScore < G.kept_g, "the node kept is a better one");
    G.has = true; G.kept = x; G.kept_par = w.m_parent; G.kept_g = x->m_gScore;
    return *x;
  }
  best_node& operator=(N&& x) { emplace(std::move(x)); return *this; }
};
template <bool R, bool GR = false> using P = params<R, false, GR>;
}
template <> class std::optional<typename chdr::solvers::mgstar<ss::P<true>>::node> : public ss::best_node<typename chdr::solvers::mgstar<ss::P<true>>::node> { public: using best_node::best_node; using best_node::operator=; };
template <> class std::optional<typename chdr::solvers::mgstar<ss::P<false>>::node> : public ss::best_node<typename chdr::solvers::mgstar<ss::P<false>>::node> { public: using best_node::best_node; using best_node::operator=; };
template <> class std::optional<typename chdr::solvers::mgstar<ss::P<true, true>>::node> : public ss::best_node<typename chdr::solvers::mgstar<ss::P<true, true>>::node> { public: using best_node::best_node; using best_node::operator=; };
using namespace ss; using namespace chdr::solvers;
VC(S02, prove_mgstar) { search<mgstar, true, false, true, false, false, true>(ROUTE); }
VC(S02, prove_mgstar_forward) { search<mgstar, false, false, true, false, false, true>(ROUTE); }
VC(S02, prove_mgstar_graph) { search<mgstar, true, false, true, false, true, true>(ROUTE); }
VC(S03, prove_mgstar) { search<mgstar, true, false, true, false, false, true>(COMPLETE); }
VC(S03, prove_mgstar_forward) { search<mgstar, false, false, true, false, false, true>(COMPLETE); }
VC(S03, prove_mgstar_graph) { search<mgstar, true, false, true, false, true, true>(COMPLETE); }
VC(S04, prove_mgstar) { search<mgstar, true, false, true, true, false, true>(SHORTEST); }
VC(S04, prove_mgstar_forward) { search<mgstar, false, false, true, true, false, true>(SHORTEST); }
#endif
