#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>

#include <mc.hpp>

#include <algorithm>
namespace {
template <typename T, std::size_t N> struct Vec {
    using V = stdx::cx_vector<T, N>;
    struct S {
        V v;
        std::vector<T> m;
    };
    static auto build(std::vector<T> const &m) {
        V v;
        for (auto const &x : m) {
            v.push_back(x);
        }
        return v;
    }
    template <std::size_t... Is> static void gets(V &v, std::vector<T> const &m, std::index_sequence<Is...>) {
        using stdx::get;
        (
            [&] {
                if (Is < m.size()) {
                    V const &c = v;
                    MC_EQ(v.template get<Is>(), m[Is]);
                    MC_EQ(c.template get<Is>(), m[Is]);
                    MC_EQ(get<Is>(v), m[Is]);
                    MC_EQ(get<Is>(c), m[Is]);
                    static_assert(std::is_same_v<decltype(v.template get<Is>()), T &>);
                    static_assert(std::is_same_v<decltype(c.template get<Is>()), T const &>);
                }
            }(),
            ...);
    }
    static void observe(V v, std::vector<T> const &m) {
        V const &c = v;
        MC_EQ(c.size(), m.size());
        MC_EQ(std::size_t{V::capacity()}, N);
        MC_EQ(std::size_t{stdx::ct_capacity_v<V>}, N);
        MC_EQ(c.empty(), m.empty());
        MC_EQ(c.full(), m.size() == N);
        if (not m.empty()) {
            MC_EQ(v.front(), m.front());
            MC_EQ(c.front(), m.front());
            MC_EQ(v.back(), m.back());
            MC_EQ(c.back(), m.back());
        }
        for (std::size_t i = 0; i < m.size(); ++i) {
            MC_EQ(v[i], m[i]);
            MC_EQ(c[i], m[i]);
        }
        gets(v, m, std::make_index_sequence<N>{});
        auto seq = [](auto b, auto e) { return std::vector<T>(b, e); };
        auto const rev = std::vector<T>(m.rbegin(), m.rend());
        MC_CHECK(seq(v.begin(), v.end()) == m);
        MC_CHECK(seq(c.begin(), c.end()) == m);
        MC_CHECK(seq(c.cbegin(), c.cend()) == m);
        MC_CHECK(seq(v.rbegin(), v.rend()) == rev);
        MC_CHECK(seq(c.rbegin(), c.rend()) == rev);
        MC_CHECK(seq(c.crbegin(), c.crend()) == rev);
        // equality with differently produced vectors of the same contents, and with every neighbour
        auto const w = build(m);
        MC_CHECK(v == w and w == v and not(v != w));
        if (m.size() < N) {
            auto x = w;
            x.push_back(T{1});
            MC_CHECK(not(v == x) and not(x == v) and v != x);
            (void)x.pop_back();
            MC_CHECK(v == x and x == v);
        }
        for (std::size_t i = 0; i < m.size(); ++i) {
            auto x = w;
            x[i] = static_cast<T>(x[i] + 1);
            MC_CHECK(v != x and x != v);
        }
        if (not m.empty()) {
            auto x = w;
            (void)x.pop_back();
            MC_CHECK(v != x and x != v);
        }
        V const cp{v};
        MC_CHECK(cp == v);
    }
    template <std::size_t... Is> static void ctors(mc::OpSystem<S> &s, std::index_sequence<Is...>) {
        s.init.push_back({"V{all}", S{V{static_cast<T>(Is % 2 + 1)...}, {static_cast<T>(Is % 2 + 1)...}}});
        s.init.push_back({"V{conv}", S{V{static_cast<unsigned char>(Is + 1)...}, {static_cast<T>(Is + 1)...}}});
    }
    template <std::size_t... Ns> static void all_ctors(mc::OpSystem<S> &s, std::index_sequence<Ns...>) {
        (ctors(s, std::make_index_sequence<Ns + 1>{}), ...);
    }
    static auto sys() {
        mc::OpSystem<S> s;
        s.init.push_back({"V{}", S{V{}, {}}});
        all_ctors(s, std::make_index_sequence<N>{});
        for (T x : {T{1}, T{2}}) {
            auto nm = std::to_string(static_cast<int>(x));
            auto room = [](S const &a) { return a.m.size() < N; };
            s.add("push_back(const& " + nm + ")", room, [=](S &a) {
                T const t = x;
                auto &r = a.v.push_back(t);
                a.m.push_back(x);
                MC_CHECK(&r == &a.v.back());
            });
            s.add("push_back(&& " + nm + ")", room, [=](S &a) {
                auto &r = a.v.push_back(T{x});
                a.m.push_back(x);
                MC_CHECK(&r == &a.v.back());
            });
            for (std::size_t i = 0; i < N; ++i) {
                auto has = [=](S const &a) { return i < a.m.size(); };
                auto w = std::to_string(i) + "] = " + nm;
                s.add("v[" + w, has, [=](S &a) { a.v[i] = x; a.m[i] = x; });
                s.add("*(begin+" + w, has, [=](S &a) { *(a.v.begin() + static_cast<std::ptrdiff_t>(i)) = x; a.m[i] = x; });
                s.add("*(rbegin+" + w, has, [=](S &a) {
                    *(a.v.rbegin() + static_cast<std::ptrdiff_t>(i)) = x;
                    a.m[a.m.size() - 1 - i] = x;
                });
            }
            s.add("front = " + nm, [](S const &a) { return not a.m.empty(); }, [=](S &a) { a.v.front() = x; a.m.front() = x; });
            s.add("back = " + nm, [](S const &a) { return not a.m.empty(); }, [=](S &a) { a.v.back() = x; a.m.back() = x; });
            if constexpr (N > 1) {
                s.add("get<1> = " + nm, [](S const &a) { return a.m.size() > 1; }, [=](S &a) { a.v.template get<1>() = x; a.m[1] = x; });
            }
        }
        s.add("push_back(own front)", [](S const &a) { return a.m.size() < N and not a.m.empty(); }, [](S &a) {
            a.v.push_back(a.v.front());
            a.m.push_back(a.m.front());
        });
        s.add("pop_back", [](S const &a) { return not a.m.empty(); }, [](S &a) {
            auto const r = a.v.pop_back();
            MC_EQ(r, a.m.back());
            a.m.pop_back();
        });
        s.add("clear", [](S &a) { a.v.clear(); a.m.clear(); });
        for (std::size_t k = 0; k <= N; ++k) {
            s.add("resize_and_overwrite " + std::to_string(k), [=](S &a) {
                int calls = 0;
                resize_and_overwrite(a.v, [&](T *p, std::size_t n) {
                    ++calls;
                    MC_EQ(n, N);
                    MC_CHECK(p == a.v.begin());
                    for (std::size_t i = a.m.size(); i < k; ++i) {
                        p[i] = T{2};
                    }
                    return k;
                });
                MC_EQ(calls, 1);
                a.m.resize(k, T{2});
            });
        }
        s.add("copy assign", [](S &a) { V w; w = a.v; MC_CHECK(w == a.v); a.v = w; });
        s.add("move", [](S &a) { V w{std::move(a.v)}; a.v = std::move(w); });
        s.add("self assign", [](S &a) { auto &r = a.v; a.v = r; });
        s.obs = [](S const &a) { observe(a.v, a.m); };
        s.keyf = [](S const &a, std::string &k) {
            mc::append_bytes(k, a.v);
            k += '|';
            k.append(reinterpret_cast<char const *>(a.m.data()), a.m.size() * sizeof(T));
        };
        return s;
    }
    static void run() {
        mc::Scope sc{[] { return "cx_vector<" + std::to_string(N) + ">"; }};
        auto s = sys();
        mc::closure(s, {.max_states = 150'000});
    }
    // equality of every ordered pair of short contents, with stale leftovers of every kind
    static void pairs() {
        std::vector<std::vector<T>> all{{}};
        for (std::size_t i = 0; i < all.size(); ++i) {
            if (all[i].size() < N) {
                for (T x : {T{1}, T{2}}) {
                    auto w = all[i];
                    w.push_back(x);
                    all.push_back(w);
                }
            }
        }
        for (auto const &a : all) {
            for (auto const &b : all) {
                for (T stale : {T{0}, T{1}, T{2}}) {
                    auto mk = [&](std::vector<T> const &m, T st) {
                        V v;
                        while (not v.full()) {
                            v.push_back(st);
                        }
                        v.clear();
                        for (auto x : m) {
                            v.push_back(x);
                        }
                        return v;
                    };
                    mc::Scope sc{[&] { return mc::show(a) + " == " + mc::show(b) + " stale " + mc::show(stale); }};
                    auto const x = mk(a, T{1});
                    auto const y = mk(b, stale);
                    MC_EQ(x == y, a == b);
                    MC_EQ(x != y, a != b);
                    mc::step(2);
                    mc::trace();
                }
            }
            mc::state(mc::hash_bytes(a.data(), a.size() * sizeof(T)));
        }
    }
};
// capacities beyond any narrow counter
template <std::size_t N> void large() {
    using V = stdx::cx_vector<std::uint32_t, N>;
    auto vp = std::make_unique<V>();
    auto &v = *vp;
    std::vector<std::uint32_t> m;
    auto check = [&] {
        mc::Scope sc{[&] { return "cx_vector<" + std::to_string(N) + "> at size " + std::to_string(m.size()); }};
        MC_EQ(v.size(), m.size());
        MC_EQ(v.full(), m.size() == N);
        MC_EQ(v.empty(), m.empty());
        if (not m.empty()) {
            MC_EQ(v.back(), m.back());
            MC_EQ(v.front(), m.front());
        }
        mc::step();
        mc::state(mc::hash_of(m.size(), m.empty() ? 0 : m.back()));
    };
    auto full_check = [&] {
        MC_CHECK(std::equal(v.begin(), v.end(), m.begin(), m.end()));
        MC_CHECK(std::equal(v.rbegin(), v.rend(), m.rbegin(), m.rend()));
        mc::trace();
    };
    for (std::uint32_t round = 0; round < 3; ++round) {
        auto const keep = round * (N / 4);
        while (m.size() < N) {
            auto x = static_cast<std::uint32_t>(m.size() * 7 + round);
            v.push_back(x);
            m.push_back(x);
            check();
        }
        full_check();
        auto w = std::make_unique<V>(v);
        MC_CHECK(*w == v);
        w->back() += 1;
        MC_CHECK(not(*w == v));
        while (m.size() > keep) {
            MC_EQ(v.pop_back(), m.back());
            m.pop_back();
            check();
        }
        full_check();
    }
}
#if MC_IN_PART(0)
MC_SECTION("closure_u8_1") { Vec<std::uint8_t, 1>::run(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("closure_u8_2") { Vec<std::uint8_t, 2>::run(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("closure_int_3") { Vec<int, 3>::run(); }
#endif
#if MC_IN_PART(3)
MC_SECTION("closure_u8_4") { Vec<std::uint8_t, 4>::run(); }
#endif
#if MC_IN_PART(4)
MC_SECTION("pairs_4") { Vec<std::uint8_t, 4>::pairs(); }
#endif
#if MC_IN_PART(5)
MC_SECTION("large_300") { large<300>(); }
#endif
#if MC_IN_PART(6)
MC_SECTION("large_70000") { large<70000>(); }
#endif
} // namespace
