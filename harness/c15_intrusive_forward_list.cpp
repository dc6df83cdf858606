#include "list_if.hpp"
namespace {
template <std::size_t NN, std::size_t NL>
using C = Arena<stdx::intrusive_forward_list<SNode>, SNode, NN, NL>;
template <std::size_t NN, std::size_t NL>
using U = Arena<stdx::intrusive_forward_list<SNode, stdx::node_policy::unchecked>, SNode, NN, NL>;
// a doubly linkable node in a forward list
template <std::size_t NN, std::size_t NL>
using D = Arena<stdx::intrusive_forward_list<DNode, stdx::node_policy::unchecked>, DNode, NN, NL>;

template <typename A> void run(bool dirty, std::size_t cap) {
    auto sys = A::system();
    if (dirty) {
        A::dirty_inits(sys);
    }
    mc::closure(sys, {.max_states = cap});
}
template <template <typename> typename P> void large(std::size_t N) {
    std::vector<SNode> nodes(N);
    stdx::intrusive_forward_list<SNode, P> l;
    std::vector<SNode *> m;
    auto check = [&] {
        std::size_t n = 0;
        for (auto &x : l) {
            MC_CHECK(n < m.size() and &x == m[n]);
            ++n;
        }
        MC_EQ(n, m.size());
        if (not m.empty()) {
            MC_CHECK(&l.back() == m.back() and &l.front() == m.front());
        }
        mc::step();
        mc::state(m.empty() ? 0 : mc::hash_of(m.size(), m.front() - nodes.data(), m.back() - nodes.data()));
    };
    for (std::size_t i = 0; i < N; ++i) {
        if (i % 2 == 0) {
            l.push_front(&nodes[i]);
            m.insert(m.begin(), &nodes[i]);
        } else {
            l.push_back(&nodes[i]);
            m.push_back(&nodes[i]);
        }
        check();
    }
    for (std::size_t i = 0; i < N; ++i) { // rotate all the way round
        auto *n = l.pop_front();
        MC_CHECK(n == m.front());
        l.push_back(n);
        m.erase(m.begin());
        m.push_back(n);
        check();
    }
    while (not m.empty()) {
        MC_CHECK(l.pop_front() == m.front());
        m.erase(m.begin());
        check();
    }
    mc::trace();
}
#if MC_IN_PART(0)
MC_SECTION("checked_5x2") { run<C<5, 2>>(false, mc::thorough ? 2'000'000u : 150'000u); }
MC_SECTION("checked_6x1") { run<C<6, 1>>(false, 150'000u); }
MC_SECTION("checked_4x3") { run<C<4, 3>>(false, 150'000u); }
#endif
#if MC_IN_PART(1)
MC_SECTION("unchecked_4x2") { run<U<4, 2>>(true, mc::thorough ? 2'000'000u : 150'000u); }
MC_SECTION("unchecked_5x1") { run<U<5, 1>>(true, 150'000u); }
MC_SECTION("unchecked_double_node_3x2") { run<D<3, 2>>(true, 150'000u); }
#endif
#if MC_IN_PART(2)
MC_SECTION("large_checked") { large<stdx::node_policy::checked>(300); }
MC_SECTION("large_unchecked") { large<stdx::node_policy::unchecked>(300); }
#endif
} // namespace
