#include <stdx/cx_set.hpp>
#include <stdx/iterator.hpp>

#include <mc.hpp>
namespace {
template <typename K, std::size_t N> struct Set {
    using V = stdx::cx_set<K, N>;
    struct S {
        V v;
        std::set<K> m;
    };
    static void observe(V v, std::set<K> const &m) {
        auto const &c = v;
        MC_EQ(std::size_t{V::capacity()}, N);
        MC_EQ(std::size_t{stdx::ct_capacity_v<V>}, N);
        MC_EQ(c.size(), m.size());
        MC_EQ(c.empty(), m.empty());
        for (int k = -1; k <= 7; ++k) {
            MC_EQ(c.contains(static_cast<K>(k)), m.contains(static_cast<K>(k)));
        }
        auto seq = [&](auto b, auto e) {
            std::set<K> r;
            std::size_t n = 0;
            for (; b != e; ++b, ++n) {
                r.insert(*b);
            }
            MC_EQ(n, m.size());
            MC_CHECK(r == m);
        };
        seq(v.begin(), v.end());
        seq(c.begin(), c.end());
        seq(c.cbegin(), c.cend());
    }
    static void run(int nkeys) {
        mc::Scope sc{[] { return "cx_set<" + std::to_string(N) + ">"; }};
        mc::OpSystem<S> s;
        s.init.push_back({"V{}", S{V{}, {}}});
        for (int k = 0; k < nkeys; ++k) {
            auto const key = static_cast<K>(k);
            auto room = [=](S const &a) { return a.m.size() < N or a.m.contains(key); };
            auto nm = std::to_string(k) + ")";
            s.add("insert(const& " + nm, room, [=](S &a) {
                K const t = key;
                auto const fresh = a.m.insert(key).second;
                MC_EQ(a.v.insert(t), fresh);
            });
            s.add("insert(&& " + nm, room, [=](S &a) {
                auto const fresh = a.m.insert(key).second;
                MC_EQ(a.v.insert(K{key}), fresh);
            });
            s.add("erase(" + nm, [=](S &a) {
                auto const n = a.m.erase(key);
                MC_EQ(a.v.erase(key), n);
            });
            s.add("erase(own " + nm, [=](S const &a) { return a.m.contains(key); }, [=](S &a) {
                for (auto &e : a.v) {
                    if (e == key) {
                        MC_EQ(a.v.erase(e), 1u);
                        break;
                    }
                }
                a.m.erase(key);
            });
        }
        for (unsigned sub = 0; sub < (1u << nkeys); ++sub) {
            std::set<K> other;
            stdx::cx_set<K, 8> big;
            stdx::cx_set<K, N> same;
            std::string nm;
            for (int k = 0; k < nkeys; ++k) {
                if (sub & (1u << k)) {
                    other.insert(static_cast<K>(k));
                    big.insert(static_cast<K>(k));
                    if (same.size() < N) {
                        same.insert(static_cast<K>(k));
                    }
                    nm += std::to_string(k);
                }
            }
            auto fits = [=](S const &a) {
                auto u = a.m;
                u.insert(other.begin(), other.end());
                return u.size() <= N;
            };
            s.add("merge(big " + nm + ")", fits, [=](S &a) {
                a.v.merge(big);
                a.m.insert(other.begin(), other.end());
                observe(V{}, {});
                MC_EQ(big.size(), other.size());
            });
            if (other.size() <= N) {
                s.add("merge(same " + nm + ")", fits, [=](S &a) {
                    a.v.merge(same);
                    a.m.insert(other.begin(), other.end());
                });
            }
        }
        // ranges that are not sets: every sequence of up to three keys, repeats included
        std::vector<std::vector<K>> seqs{{}};
        for (std::size_t i = 0; i < seqs.size(); ++i) {
            auto const seq = seqs[i];
            for (int k = 0; k < nkeys and seq.size() < 3; ++k) {
                seqs.push_back(seq);
                seqs.back().push_back(static_cast<K>(k));
            }
            std::string nm;
            for (auto k : seq) {
                nm += std::to_string(static_cast<int>(k));
            }
            s.add("merge(vector " + nm + ")", [=](S const &a) {
                auto u = a.m;
                u.insert(seq.begin(), seq.end());
                return u.size() <= N;
            }, [=](S &a) {
                a.v.merge(seq);
                a.m.insert(seq.begin(), seq.end());
            });
        }
        s.add("merge(itself)", [](S &a) { a.v.merge(a.v); });
        s.add("pop_back", [](S const &a) { return not a.m.empty(); }, [](S &a) {
            auto const r = a.v.pop_back();
            MC_EQ(a.m.erase(r), 1u);
        });
        s.add("clear", [](S &a) { a.v.clear(); a.m.clear(); });
        s.add("copy assign", [](S &a) { V w; w = a.v; a.v = w; });
        s.add("move", [](S &a) { V w{std::move(a.v)}; a.v = std::move(w); });
        s.obs = [](S const &a) { observe(a.v, a.m); };
        s.keyf = [](S const &a, std::string &k) {
            mc::append_bytes(k, a.v);
            for (auto x : a.m) {
                k += '|';
                mc::append_bytes(k, x);
            }
        };
        mc::closure(s, {.max_states = mc::thorough ? 1'000'000u : 60'000u});
    }
    // every argument list of length 1..4 over three values, repeats included, then some operations
    static void ctors() {
        auto one = [](auto... xs) {
            mc::Scope sc{[&] { return "cx_set{" + ((std::to_string(static_cast<int>(xs)) + " ") + ...) + "}"; }};
            V v{xs...};
            std::set<K> m{static_cast<K>(xs)...};
            mc::step();
            observe(v, m);
            for (int k = 0; k < 4; ++k) {
                auto w = v;
                auto n = m;
                if (n.size() < N or n.contains(static_cast<K>(k))) {
                    auto const fresh = n.insert(static_cast<K>(k)).second;
                    MC_EQ(w.insert(static_cast<K>(k)), fresh);
                    observe(w, n);
                }
                w = v;
                n = m;
                auto const e = n.erase(static_cast<K>(k));
                MC_EQ(w.erase(static_cast<K>(k)), e);
                observe(w, n);
                mc::step(2);
                mc::state(mc::hash_of(m.size(), *m.begin(), *m.rbegin(), k));
            }
            auto const ded = stdx::cx_set{static_cast<K>(xs)...};
            static_assert(decltype(ded)::capacity() == sizeof...(xs));
            MC_EQ(ded.size(), m.size());
            mc::trace();
        };
        for (int a = 0; a < 3; ++a) {
            one(static_cast<K>(a));
            for (int b = 0; b < 3; ++b) {
                one(static_cast<K>(a), static_cast<unsigned char>(b));
                for (int c = 0; c < 3; ++c) {
                    one(static_cast<K>(a), static_cast<K>(b), static_cast<K>(c));
                    for (int d = 0; d < 3; ++d) {
                        one(static_cast<K>(a), static_cast<K>(b), static_cast<K>(c), static_cast<K>(d));
                    }
                }
            }
        }
    }
};
template <std::size_t N> void large() {
    using V = stdx::cx_set<std::uint32_t, N>;
    auto vp = std::make_unique<V>();
    auto &v = *vp;
    std::set<std::uint32_t> m;
    auto check = [&] {
        mc::Scope sc{[&] { return "cx_set<" + std::to_string(N) + "> size " + std::to_string(m.size()); }};
        MC_EQ(v.size(), m.size());
        MC_CHECK((std::set<std::uint32_t>(v.begin(), v.end()) == m));
        mc::step();
        mc::state(mc::hash_of(m.size(), m.empty() ? 0 : *m.rbegin()));
    };
    for (std::uint32_t i = 0; i < N; ++i) {
        MC_EQ(v.insert(i * 5), true);
        m.insert(i * 5);
        if (i % 16 == 0 or (i > 250 and i < 260) or i + 2 > N) {
            check();
            MC_EQ(v.insert(i * 5), false);
        }
    }
    for (std::uint32_t i = 0; i < N; i += 3) {
        MC_EQ(v.erase(i * 5), 1u);
        MC_EQ(v.erase(i * 5), 0u);
        m.erase(i * 5);
        if (i % 15 == 0) {
            check();
        }
    }
    while (not m.empty()) {
        MC_EQ(m.erase(v.pop_back()), 1u);
    }
    check();
    mc::trace();
}
#if MC_IN_PART(0)
MC_SECTION("closure_1") { Set<std::uint8_t, 1>::run(3); }
#endif
#if MC_IN_PART(1)
MC_SECTION("closure_2") { Set<std::uint8_t, 2>::run(4); }
#endif
#if MC_IN_PART(2)
MC_SECTION("closure_3") { Set<std::uint8_t, 3>::run(4); }
#endif
#if MC_IN_PART(3)
MC_SECTION("closure_4") { Set<std::uint8_t, 4>::run(5); }
#endif
#if MC_IN_PART(4)
MC_SECTION("closure_int_3") { Set<int, 3>::run(4); }
#endif
#if MC_IN_PART(5)
MC_SECTION("constructors") { Set<std::uint8_t, 4>::ctors(); }
#endif
#if MC_IN_PART(6)
MC_SECTION("constructors_int") { Set<int, 5>::ctors(); }
#endif
#if MC_IN_PART(7)
MC_SECTION("large_300") { large<300>(); }
#endif
} // namespace
