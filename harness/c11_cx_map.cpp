#include <stdx/cx_map.hpp>
#include <stdx/iterator.hpp>

#include <mc.hpp>

#include <algorithm>
namespace {
template <typename K, typename M, std::size_t N> struct Map {
    using V = stdx::cx_map<K, M, N>;
    using VT = typename V::value_type;
    struct S {
        V v;
        std::map<K, M> m;
    };
    static void observe(S const &a) {
        auto v = a.v;
        auto const &c = v;
        MC_EQ(std::size_t{V::capacity()}, N);
        MC_EQ(std::size_t{stdx::ct_capacity_v<V>}, N);
        MC_EQ(c.size(), a.m.size());
        MC_EQ(c.empty(), a.m.empty());
        MC_EQ(c.full(), a.m.size() == N);
        for (int k = -1; k <= 6; ++k) {
            auto const key = static_cast<K>(k);
            auto it = a.m.find(key);
            MC_EQ(c.contains(key), it != a.m.end());
            if (it != a.m.end()) {
                MC_EQ(c.get(key), it->second);
                MC_EQ(v.get(key), it->second);
                static_assert(std::is_same_v<decltype(c.get(key)), M const &>);
            }
        }
        auto seq = [&](auto b, auto e) { // each pair once, in any order
            std::map<K, M> r;
            std::size_t n = 0;
            for (; b != e; ++b, ++n) {
                r.emplace(b->key, b->value);
            }
            MC_EQ(n, a.m.size());
            MC_CHECK(r == a.m);
        };
        seq(v.begin(), v.end());
        seq(c.begin(), c.end());
        seq(c.cbegin(), c.cend());
    }
    static auto pop(S &a) {
        auto const r = a.v.pop_back();
        auto it = a.m.find(r.key);
        MC_CHECK(it != a.m.end());
        MC_EQ(r.value, it->second);
        a.m.erase(it);
    }
    template <std::size_t... Is> static void ctor(mc::OpSystem<S> &s, std::index_sequence<Is...>) {
        s.init.push_back({"V{" + std::to_string(sizeof...(Is)) + "}",
                          S{V{VT{static_cast<K>(Is), static_cast<M>(Is % 2 + 1)}...},
                            {std::pair<K const, M>{static_cast<K>(Is), static_cast<M>(Is % 2 + 1)}...}}});
        s.init.push_back({"V{rev " + std::to_string(sizeof...(Is)) + "}",
                          S{V{VT{static_cast<K>(sizeof...(Is) - Is), static_cast<M>(1)}...},
                            {std::pair<K const, M>{static_cast<K>(sizeof...(Is) - Is), static_cast<M>(1)}...}}});
    }
    template <std::size_t... Ns> static void ctors(mc::OpSystem<S> &s, std::index_sequence<Ns...>) {
        (ctor(s, std::make_index_sequence<Ns + 1>{}), ...);
    }
    static void run(int nkeys) {
        mc::Scope sc{[] { return "cx_map<" + std::to_string(N) + ">"; }};
        mc::OpSystem<S> s;
        s.init.push_back({"V{}", S{V{}, {}}});
        ctors(s, std::make_index_sequence<N>{});
        for (int k = 0; k < nkeys; ++k) {
            auto const key = static_cast<K>(k);
            auto room = [=](S const &a) { return a.m.size() < N or a.m.contains(key); };
            auto has = [=](S const &a) { return a.m.contains(key); };
            auto nm = std::to_string(k);
            for (int x : {1, 2}) {
                auto const val = static_cast<M>(x);
                auto nv = nm + "," + std::to_string(x) + ")";
                s.add("insert_or_assign(" + nv, room, [=](S &a) {
                    auto const fresh = not a.m.contains(key);
                    MC_EQ(a.v.insert_or_assign(key, val), fresh);
                    a.m[key] = val;
                });
                s.add("put(" + nv, room, [=](S &a) {
                    auto const fresh = not a.m.contains(key);
                    MC_EQ(a.v.put(key, val), fresh);
                    a.m[key] = val;
                });
                s.add("get= (" + nv, has, [=](S &a) { a.v.get(key) = val; a.m[key] = val; });
            }
            s.add("erase(" + nm + ")", [=](S &a) {
                auto const n = a.m.erase(key);
                MC_EQ(a.v.erase(key), n);
            });
            s.add("erase(own key " + nm + ")", has, [=](S &a) { // argument aliases the stored key
                for (auto &e : a.v) {
                    if (e.key == key) {
                        MC_EQ(a.v.erase(e.key), 1u);
                        break;
                    }
                }
                a.m.erase(key);
            });
        }
        s.add("pop_back", [](S const &a) { return not a.m.empty(); }, [](S &a) { pop(a); });
        s.add("clear", [](S &a) { a.v.clear(); a.m.clear(); });
        s.add("copy assign", [](S &a) { V w; w = a.v; a.v = w; });
        s.add("move", [](S &a) { V w{std::move(a.v)}; a.v = std::move(w); });
        s.obs = observe;
        s.keyf = [](S const &a, std::string &k) {
            mc::append_bytes(k, a.v);
            for (auto const &[x, y] : a.m) {
                k += '|';
                mc::append_bytes(k, x);
                mc::append_bytes(k, y);
            }
        };
        mc::closure(s, {.max_states = mc::thorough ? 1'500'000u : 120'000u});
    }
};
template <std::size_t N> void large() {
    using V = stdx::cx_map<std::uint32_t, std::uint32_t, N>;
    auto vp = std::make_unique<V>();
    auto &v = *vp;
    std::map<std::uint32_t, std::uint32_t> m;
    auto check = [&] {
        mc::Scope sc{[&] { return "cx_map<" + std::to_string(N) + "> size " + std::to_string(m.size()); }};
        MC_EQ(v.size(), m.size());
        MC_EQ(v.full(), m.size() == N);
        std::map<std::uint32_t, std::uint32_t> r;
        for (auto const &[k, x] : v) {
            r[k] = x;
        }
        MC_CHECK(r == m);
        mc::step();
        mc::state(mc::hash_of(m.size(), m.empty() ? 0 : m.rbegin()->first));
    };
    for (std::uint32_t i = 0; i < N; ++i) {
        MC_EQ(v.insert_or_assign(i * 3, i), true);
        m[i * 3] = i;
        if (i % 16 == 0 or i + 3 > N or (i > 250 and i < 260)) {
            check();
        }
    }
    check();
    for (std::uint32_t i = 0; i < N; i += 2) { // erase every other key, then the rest backwards
        MC_EQ(v.contains(i * 3), true);
        MC_EQ(v.get(i * 3), i);
        MC_EQ(v.erase(i * 3), 1u);
        MC_EQ(v.erase(i * 3), 0u);
        m.erase(i * 3);
        if (i % 16 == 0) {
            check();
        }
    }
    check();
    for (std::uint32_t i = N; i-- > 0;) {
        MC_EQ(v.erase(i * 3), m.erase(i * 3));
    }
    check();
    mc::trace();
}
#if MC_IN_PART(0)
MC_SECTION("closure_1") { Map<std::uint8_t, std::uint8_t, 1>::run(3); }
#endif
#if MC_IN_PART(1)
MC_SECTION("closure_2") { Map<std::uint8_t, std::uint8_t, 2>::run(3); }
#endif
#if MC_IN_PART(2)
MC_SECTION("closure_3") { Map<std::uint8_t, std::uint8_t, 3>::run(4); }
#endif
#if MC_IN_PART(3)
MC_SECTION("closure_4") { Map<std::uint8_t, std::uint8_t, 4>::run(mc::thorough ? 5 : 4); }
#endif
#if MC_IN_PART(4)
MC_SECTION("closure_int_2") { Map<int, std::uint16_t, 2>::run(4); }
#endif
#if MC_IN_PART(5)
MC_SECTION("large_300") { large<300>(); }
#endif
} // namespace
