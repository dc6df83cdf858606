#include "list_if.hpp"
namespace {
template <std::size_t NN, std::size_t NL>
using C = Arena<stdx::intrusive_list<DNode>, DNode, NN, NL>;
template <std::size_t NN, std::size_t NL>
using U = Arena<stdx::intrusive_list<DNode, stdx::node_policy::unchecked>, DNode, NN, NL>;

template <typename A> void run(bool dirty, std::size_t cap) {
    auto sys = A::system();
    if (dirty) {
        A::dirty_inits(sys);
    }
    mc::closure(sys, {.max_states = cap});
}
// long lists: every length up to N, removal at every position of the full list
template <template <typename> typename P> void large(std::size_t N) {
    std::vector<DNode> nodes(N);
    stdx::intrusive_list<DNode, P> l;
    std::vector<DNode *> m;
    auto check = [&] {
        std::size_t n = 0;
        for (auto &x : l) {
            MC_CHECK(n < m.size() and &x == m[n]);
            ++n;
        }
        MC_EQ(n, m.size());
        if (not m.empty()) {
            MC_CHECK(&l.back() == m.back() and &l.front() == m.front());
        }
        mc::step();
        mc::state(m.empty() ? 0 : mc::hash_of(m.size(), m.front() - nodes.data(), m.back() - nodes.data()));
    };
    for (std::size_t i = 0; i < N; ++i) {
        if (i % 3 == 0) {
            l.push_front(&nodes[i]);
            m.insert(m.begin(), &nodes[i]);
        } else if (i % 3 == 1) {
            l.push_back(&nodes[i]);
            m.push_back(&nodes[i]);
        } else {
            auto it = l.begin();
            for (std::size_t k = 0; k < i / 2; ++k) {
                ++it;
            }
            l.insert(it, &nodes[i]);
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(i / 2), &nodes[i]);
        }
        check();
    }
    for (std::size_t i = 0; i < N; ++i) {
        auto *n = m[i];
        l.remove(n);
        m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
        check();
        if (i == m.size()) {
            l.insert(l.end(), n);
            m.push_back(n);
        } else {
            auto it = l.begin();
            while (&*it != m[i]) {
                ++it;
            }
            l.insert(it, n);
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), n);
        }
        check();
    }
    while (not m.empty()) {
        MC_CHECK(l.pop_back() == m.back());
        m.pop_back();
        check();
    }
    mc::trace();
}
#if MC_IN_PART(0)
MC_SECTION("checked_5x2") { run<C<5, 2>>(false, mc::thorough ? 2'000'000u : 150'000u); }
MC_SECTION("checked_6x1") { run<C<6, 1>>(false, mc::thorough ? 2'000'000u : 150'000u); }
MC_SECTION("checked_4x3") { run<C<4, 3>>(false, 150'000u); }
#endif
#if MC_IN_PART(1)
MC_SECTION("unchecked_3x2") { run<U<3, 2>>(true, mc::thorough ? 1'000'000u : 150'000u); }
MC_SECTION("unchecked_3x1") { run<U<3, 1>>(true, 150'000u); }
MC_SECTION("unchecked_4x2") { run<U<4, 2>>(false, mc::thorough ? 2'000'000u : 100'000u); }
MC_SECTION("unchecked_4x1") { run<U<4, 1>>(true, mc::thorough ? 3'000'000u : 150'000u); }
#endif
#if MC_IN_PART(2)
MC_SECTION("large_checked") { large<stdx::node_policy::checked>(300); }
MC_SECTION("large_unchecked") { large<stdx::node_policy::unchecked>(300); }
#endif
} // namespace
