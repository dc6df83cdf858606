#include "list_if.hpp"
namespace {
template <typename Node> auto clear_links(Node const &n) -> bool {
    if constexpr (requires { n.prev; }) {
        return n.prev == nullptr and n.next == nullptr;
    } else {
        return n.next == nullptr;
    }
}
// In every reachable state: every insertion of every node with every population of its links, then discard.
template <typename A, bool checked> struct Policy {
    using S = typename A::S;
    static void expect(S const &s, std::size_t n, auto desc, auto f) {
        mc::Scope sc{desc};
        A::load(s);
        auto const want = checked and not clear_links(A::mem.node[n]) ? 1 : 0;
        panics = 0;
        f();
        MC_EQ(panics, want);
        mc::step();
    }
    static void inserts(S const &s, std::size_t n, std::string const &how) {
        using L = std::remove_cvref_t<decltype(A::mem.list[0])>;
        for (std::size_t l = 0; l < A::mem.list.size(); ++l) {
            auto &list = A::mem.list[l];
            auto d = [&](std::string o) {
                return [=] { return "L" + std::to_string(l) + "." + o + "(node " + std::to_string(n) + " " + how + ")"; };
            };
            expect(s, n, d("push_front"), [&] { list.push_front(&A::mem.node[n]); });
            expect(s, n, d("push_back"), [&] { list.push_back(&A::mem.node[n]); });
            if constexpr (requires(L x) { x.remove(nullptr); }) {
                for (std::size_t i = 0; i < s.m[l].size(); ++i) {
                    expect(s, n, d("insert@" + std::to_string(i)), [&] { list.insert(A::at(list, i), &A::mem.node[n]); });
                }
                expect(s, n, d("insert@end"), [&] { list.insert(list.end(), &A::mem.node[n]); });
            }
        }
    }
    static void observe(S const &s) {
        A::observe(s);
        if constexpr (checked) {
            for (std::size_t n = 0; n < s.snap.node.size(); ++n) {
                if (s.where(n) < 0) {
                    MC_CHECK(clear_links(s.snap.node[n])); // whatever left a list left with its links cleared
                }
            }
        }
        for (std::size_t n = 0; n < s.snap.node.size(); ++n) {
            if (s.where(n) >= 0) { // still linked somewhere
                inserts(s, n, "linked");
                continue;
            }
            inserts(s, n, "clear");
            for (std::size_t o = 0; o < s.snap.node.size(); ++o) {
                auto t = s;
                t.snap.node[n].next = &A::mem.node[o];
                inserts(t, n, "next only");
                if constexpr (requires { t.snap.node[n].prev; }) {
                    t.snap.node[n].prev = &A::mem.node[o];
                    inserts(t, n, "both");
                    t.snap.node[n].next = nullptr;
                    inserts(t, n, "prev only");
                }
            }
        }
    }
    static void run() {
        auto sys = A::system();
        sys.obs = observe;
        mc::closure(sys, {.max_states = mc::thorough ? 1'000'000u : 60'000u});
    }
};
template <std::size_t NN, std::size_t NL> using DC = Arena<stdx::intrusive_list<DNode>, DNode, NN, NL>;
template <std::size_t NN, std::size_t NL>
using DU = Arena<stdx::intrusive_list<DNode, stdx::node_policy::unchecked>, DNode, NN, NL>;
template <std::size_t NN, std::size_t NL> using SC = Arena<stdx::intrusive_forward_list<SNode>, SNode, NN, NL>;
template <std::size_t NN, std::size_t NL>
using SU = Arena<stdx::intrusive_forward_list<SNode, stdx::node_policy::unchecked>, SNode, NN, NL>;
// a clear() or drain of lists of every length leaves clear links
template <typename L, typename Node> void lengths(std::size_t N) {
    std::vector<Node> nodes(N);
    L l;
    for (std::size_t n = 0; n <= N; ++n) {
        for (int how = 0; how < 4; ++how) {
            mc::Scope sc{[&] { return "length " + std::to_string(n) + " way " + std::to_string(how); }};
            panics = 0;
            for (std::size_t i = 0; i < n; ++i) {
                l.push_back(&nodes[i]);
            }
            MC_EQ(panics, 0);
            if (n > 2) {
                l.push_back(&nodes[n / 2]);
                MC_EQ(panics, 1);
                // that broke the list: start over
                l = L{};
                for (auto &x : nodes) {
                    x = Node{};
                }
                panics = 0;
                for (std::size_t i = 0; i < n; ++i) {
                    l.push_front(&nodes[i]);
                }
                MC_EQ(panics, 0);
            }
            if (how == 0) {
                l.clear();
            } else if (how == 1) {
                while (not l.empty()) {
                    MC_CHECK(clear_links(*l.pop_front()));
                }
            } else if constexpr (requires { l.pop_back(); }) {
                while (not l.empty()) {
                    if (how == 2) {
                        MC_CHECK(clear_links(*l.pop_back()));
                    } else {
                        auto *p = &*l.begin();
                        l.remove(p);
                        MC_CHECK(clear_links(*p));
                    }
                }
            } else {
                l.clear();
            }
            for (auto const &x : nodes) {
                MC_CHECK(clear_links(x));
            }
            MC_CHECK(l.empty());
            mc::step();
            mc::trace();
            mc::state(mc::hash_of(n, how));
        }
    }
}
#if MC_IN_PART(0)
MC_SECTION("double_checked_4x2") { Policy<DC<4, 2>, true>::run(); }
MC_SECTION("double_checked_5x1") { Policy<DC<5, 1>, true>::run(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("double_unchecked_4x1") { Policy<DU<4, 1>, false>::run(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("single_checked_4x2") { Policy<SC<4, 2>, true>::run(); }
MC_SECTION("single_checked_6x1") { Policy<SC<6, 1>, true>::run(); }
#endif
#if MC_IN_PART(3)
MC_SECTION("double_node_in_forward_list_3x2") {
    Policy<Arena<stdx::intrusive_forward_list<DNode>, DNode, 3, 2>, true>::run();
}
MC_SECTION("single_unchecked_5x1") { Policy<SU<5, 1>, false>::run(); }
MC_SECTION("lengths_double") { lengths<stdx::intrusive_list<DNode>, DNode>(260); }
MC_SECTION("lengths_single") { lengths<stdx::intrusive_forward_list<SNode>, SNode>(260); }
#endif
} // namespace
