#pragma once
// Shared by the intrusive list checks: nodes and lists live in one fixed arena, a state is a snapshot of its bytes.
#include <stdx/ct_string.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/panic.hpp>

#include <mc.hpp>

#include <array>
#include <cstring>
#include <new>
#include <vector>

inline int panics = 0;
struct counting_handler {
    template <typename... Args> static auto panic(Args &&...) -> void { ++panics; }
    template <stdx::ct_string S, typename... Args> static auto panic(Args &&...) -> void { ++panics; }
};
template <> inline auto stdx::panic_handler<> = counting_handler{};

struct DNode {
    int id;
    DNode *prev{};
    DNode *next{};
};
struct SNode {
    int id;
    SNode *next{};
};
using Seq = std::vector<std::uint8_t>;

template <typename L, typename Node, std::size_t NN, std::size_t NL> struct Arena {
    static_assert(std::is_trivially_copyable_v<L>);
    struct Mem {
        std::array<Node, NN> node;
        std::array<L, NL> list;
    };
    inline static Mem mem{};
    struct S {
        Mem snap;
        std::array<Seq, NL> m;
        auto where(std::size_t n) const -> int {
            for (std::size_t l = 0; l < NL; ++l) {
                for (auto x : m[l]) {
                    if (x == n) {
                        return static_cast<int>(l);
                    }
                }
            }
            return -1;
        }
    };
    static void load(S const &s) { std::memcpy(static_cast<void *>(&mem), &s.snap, sizeof mem); }
    static void save(S &s) { std::memcpy(static_cast<void *>(&s.snap), &mem, sizeof mem); }
    static auto fresh() -> S {
        S s{};
        for (std::size_t i = 0; i < NN; ++i) {
            s.snap.node[i].id = static_cast<int>(i);
        }
        return s;
    }
    static auto idx(Node const *p) -> int {
        for (std::size_t i = 0; i < NN; ++i) {
            if (p == &mem.node[i]) {
                return static_cast<int>(i);
            }
        }
        return -1;
    }
    static auto op(auto f) {
        return [f](S &s) {
            load(s);
            panics = 0;
            f(s);
            MC_EQ(panics, 0);
            save(s);
        };
    }
    static void key(S const &s, std::string &k) {
        mc::append_bytes(k, s.snap);
        for (auto const &m : s.m) {
            k.append(m.begin(), m.end());
            k += '|';
        }
    }
    static auto at(L &l, std::size_t i) {
        auto it = l.begin();
        for (; i > 0; --i) {
            ++it;
        }
        return it;
    }
    // forward iteration in every form, front, back, empty
    static void observe(S const &s) {
        load(s);
        panics = 0;
        for (std::size_t l = 0; l < NL; ++l) {
            mc::Scope sc{[&] { return "list " + std::to_string(l); }};
            auto &list = mem.list[l];
            auto const &cl = list;
            auto const &m = s.m[l];
            MC_EQ(cl.empty(), m.empty());
            auto walk = [&](auto b, auto e) {
                std::size_t n = 0;
                for (auto it = b; it != e; ++it, ++n) {
                    MC_CHECK(n < m.size());
                    MC_EQ(idx(&*it), int{m[n]});
                    MC_EQ(it->id, int{m[n]});
                    MC_CHECK(it.operator->() == &*it);
                    auto const ci = it;
                    MC_CHECK(&*ci == &*it and ci->id == it->id);
                }
                MC_EQ(n, m.size());
                n = 0;
                for (auto it = b; it != e; ++n) {
                    auto old = it++;
                    MC_CHECK(n < m.size());
                    MC_EQ(idx(&*old), int{m[n]});
                    MC_CHECK(old != it and old == old);
                }
                MC_EQ(n, m.size());
            };
            walk(list.begin(), list.end());
            walk(cl.begin(), cl.end());
            walk(cl.cbegin(), cl.cend());
            if (not m.empty()) {
                MC_EQ(idx(&list.front()), int{m.front()});
                MC_EQ(idx(&list.back()), int{m.back()});
                MC_EQ(idx(&cl.front()), int{m.front()});
                MC_EQ(idx(&cl.back()), int{m.back()});
            }
            if constexpr (requires(L x) { x.pop_back(); }) {
                if (not m.empty()) { // links in both directions
                    auto p = &list.back();
                    for (auto i = m.size(); i-- > 0;) {
                        MC_EQ(idx(p), int{m[i]});
                        MC_CHECK(i > 0 ? p->prev != nullptr : p->prev == nullptr);
                        MC_CHECK(i + 1 < m.size() ? p->next == &mem.node[m[i + 1]] : p->next == nullptr);
                        p = p->prev;
                    }
                    // draining a copy from the back visits the nodes in reverse
                    for (auto i = m.size(); i-- > 0;) {
                        MC_CHECK(not list.empty());
                        MC_EQ(idx(list.pop_back()), int{m[i]});
                    }
                    MC_CHECK(list.empty() and list.begin() == list.end());
                    load(s);
                }
            }
            for (auto x : m) {
                MC_CHECK(not list.empty());
                MC_EQ(idx(list.pop_front()), int{x});
            }
            MC_CHECK(list.empty() and list.begin() == list.end());
            load(s);
        }
        MC_EQ(panics, 0);
    }
    static void common_ops(mc::OpSystem<S> &sys) {
        for (std::size_t l = 0; l < NL; ++l) {
            auto ls = "L" + std::to_string(l) + ".";
            auto nonempty = [l](S const &s) { return not s.m[l].empty(); };
            for (std::size_t n = 0; n < NN; ++n) {
                auto free = [n](S const &s) { return s.where(n) < 0; };
                auto ns = "(" + std::to_string(n) + ")";
                sys.add(ls + "push_front" + ns, free, op([l, n](S &s) {
                            mem.list[l].push_front(&mem.node[n]);
                            s.m[l].insert(s.m[l].begin(), static_cast<std::uint8_t>(n));
                        }));
                sys.add(ls + "push_back" + ns, free, op([l, n](S &s) {
                            mem.list[l].push_back(&mem.node[n]);
                            s.m[l].push_back(static_cast<std::uint8_t>(n));
                        }));
                if constexpr (requires(L x) { x.remove(nullptr); }) {
                    for (std::size_t i = 0; i < NN; ++i) {
                        auto en = [l, i, free](S const &s) { return free(s) and i <= s.m[l].size(); };
                        sys.add(ls + "insert@" + std::to_string(i) + ns, en, op([l, n, i](S &s) {
                                    auto it = i == s.m[l].size() ? mem.list[l].end() : at(mem.list[l], i);
                                    mem.list[l].insert(it, &mem.node[n]);
                                    s.m[l].insert(s.m[l].begin() + static_cast<std::ptrdiff_t>(i),
                                                  static_cast<std::uint8_t>(n));
                                }));
                    }
                    sys.add(ls + "remove" + ns, [l, n](S const &s) { return s.where(n) == static_cast<int>(l); },
                            op([l, n](S &s) {
                                mem.list[l].remove(&mem.node[n]);
                                std::erase(s.m[l], n);
                            }));
                }
            }
            sys.add(ls + "pop_front", nonempty, op([l](S &s) {
                        auto *p = mem.list[l].pop_front();
                        MC_EQ(idx(p), int{s.m[l].front()});
                        s.m[l].erase(s.m[l].begin());
                    }));
            if constexpr (requires(L x) { x.pop_back(); }) {
                sys.add(ls + "pop_back", nonempty, op([l](S &s) {
                            auto *p = mem.list[l].pop_back();
                            MC_EQ(idx(p), int{s.m[l].back()});
                            s.m[l].pop_back();
                        }));
            }
            sys.add(ls + "clear", op([l](S &s) {
                        mem.list[l].clear();
                        s.m[l].clear();
                    }));
        }
    }
    static auto system() {
        mc::OpSystem<S> sys;
        sys.init.push_back({"fresh nodes", fresh()});
        common_ops(sys);
        sys.obs = observe;
        sys.keyf = key;
        return sys;
    }
    // nodes as a user of the unchecked policy may hand them over: links left from elsewhere
    static void dirty_inits(mc::OpSystem<S> &sys) {
        for (std::size_t d = 0; d < NN; ++d) {
            auto s = fresh();
            for (std::size_t i = 0; i < NN; ++i) {
                s.snap.node[i].next = &mem.node[(i + d) % NN];
                if constexpr (requires(Node n) { n.prev; }) {
                    s.snap.node[i].prev = &mem.node[(i + 1) % NN];
                }
            }
            sys.init.push_back({"stale links " + std::to_string(d), s});
        }
    }
};
