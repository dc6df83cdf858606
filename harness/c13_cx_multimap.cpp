#include <stdx/cx_multimap.hpp>
#include <stdx/iterator.hpp>

#include <mc.hpp>
#include <utility>
#include <string>
#include <set>
#include <memory>
#include <map>
namespace {
using u8 = std::uint8_t;
template <std::size_t KN, std::size_t VN> struct MM {
    using V = stdx::cx_multimap<u8, u8, KN, VN>;
    using M = std::map<u8, std::set<u8>>;
    struct S {
        V v;
        M m;
    };
    static auto to_model(V const &v) {
        M r;
        std::size_t n = 0;
        for (auto const &[k, s] : v) {
            std::set<u8> x(s.begin(), s.end());
            MC_EQ(x.size(), s.size());
            r.emplace(k, x);
            ++n;
        }
        MC_EQ(r.size(), n);
        return r;
    }
    static void observe(S const &a) {
        auto v = a.v;
        auto const &c = v;
        MC_EQ(std::size_t{V::capacity()}, KN);
        MC_EQ(std::size_t{stdx::ct_capacity_v<V>}, KN);
        MC_EQ(c.size(), a.m.size());
        MC_EQ(c.empty(), a.m.empty());
        MC_CHECK(to_model(v) == a.m);
        std::size_t n = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it) {
            ++n;
        }
        for (auto it = v.begin(); it != v.end(); ++it) {
            ++n;
        }
        MC_EQ(n, 2 * a.m.size());
        for (u8 k = 0; k < 5; ++k) {
            auto it = a.m.find(k);
            MC_EQ(c.contains(k), it != a.m.end());
            for (u8 x = 0; x < 6; ++x) {
                MC_EQ(c.contains(k, x), it != a.m.end() and it->second.contains(x));
            }
            if (it != a.m.end()) {
                MC_CHECK((std::set<u8>(c.get(k).begin(), c.get(k).end()) == it->second));
                MC_EQ(v.get(k).size(), it->second.size());
            }
        }
    }
    static void run(u8 keys, u8 vals) {
        mc::Scope sc{[] { return "cx_multimap<" + std::to_string(KN) + "," + std::to_string(VN) + ">"; }};
        mc::OpSystem<S> s;
        s.init.push_back({"V{}", S{V{}, {}}});
        for (u8 k = 0; k < keys; ++k) {
            auto kroom = [=](S const &a) { return a.m.contains(k) or a.m.size() < KN; };
            auto nk = std::to_string(k);
            s.add("insert(" + nk + ")", kroom, [=](S &a) { a.v.insert(k); a.m[k]; });
            s.add("put(" + nk + ")", kroom, [=](S &a) { a.v.put(k); a.m[k]; });
            s.add("erase(" + nk + ")", [=](S &a) {
                auto const n = a.m.erase(k);
                MC_EQ(a.v.erase(k), n);
            });
            for (u8 x = 1; x <= vals; ++x) {
                auto room = [=](S const &a) {
                    auto it = a.m.find(k);
                    return it == a.m.end() ? a.m.size() < KN : it->second.contains(x) or it->second.size() < VN;
                };
                auto nm = "(" + nk + "," + std::to_string(x) + ")";
                s.add("insert" + nm, room, [=](S &a) { a.v.insert(k, x); a.m[k].insert(x); });
                s.add("put" + nm, room, [=](S &a) { a.v.put(k, x); a.m[k].insert(x); });
                s.add("get.insert" + nm, [=](S const &a) { return room(a) and a.m.contains(k); },
                      [=](S &a) {
                          auto const fresh = a.m[k].insert(x).second;
                          MC_EQ(a.v.get(k).insert(x), fresh);
                      });
                s.add("erase" + nm, [=](S &a) {
                    auto it = a.m.find(k);
                    if (it == a.m.end()) {
                        MC_EQ(a.v.erase(k, x), 0u);
                        return;
                    }
                    if (it->second.empty()) {
                        // nothing to remove from a key that has no values: whether the key stays is not specified
                        MC_EQ(a.v.erase(k, x), 0u);
                        if (not a.v.contains(k)) {
                            a.m.erase(it);
                        }
                        return;
                    }
                    auto const n = it->second.erase(x);
                    if (it->second.empty()) {
                        a.m.erase(it);
                    }
                    MC_EQ(a.v.erase(k, x), n);
                });
                s.add("erase own" + nm, [=](S const &a) { auto it = a.m.find(k); return it != a.m.end() and it->second.contains(x); },
                      [=](S &a) { // arguments alias the stored key and value
                          for (auto &[kk, set] : a.v) {
                              if (kk == k) {
                                  for (auto &e : set) {
                                      if (e == x) {
                                          MC_EQ(a.v.erase(kk, e), 1u);
                                          break;
                                      }
                                  }
                                  break;
                              }
                          }
                          a.m[k].erase(x);
                          if (a.m[k].empty()) {
                              a.m.erase(k);
                          }
                      });
            }
        }
        s.add("clear", [](S &a) { a.v.clear(); a.m.clear(); });
        s.add("copy assign", [](S &a) { V w; w = a.v; a.v = w; });
        s.add("move", [](S &a) { V w{std::move(a.v)}; a.v = std::move(w); });
        s.obs = observe;
        s.keyf = [](S const &a, std::string &key) {
            mc::append_bytes(key, a.v);
            for (auto const &[k, xs] : a.m) {
                key += '|';
                key += static_cast<char>(k);
                for (auto x : xs) {
                    key += static_cast<char>(x + 32);
                }
            }
        };
        mc::closure(s, {.max_states = mc::thorough ? 1'500'000u : 120'000u});
    }
};
#if MC_IN_PART(0)
MC_SECTION("closure_1_2") { MM<1, 2>::run(2, 3); }
MC_SECTION("closure_2_2") { MM<2, 2>::run(3, 3); }
#endif
#if MC_IN_PART(1)
MC_SECTION("closure_3_2") { MM<3, 2>::run(3, 2); }
MC_SECTION("closure_2_3") { MM<2, 3>::run(2, 3); }
#endif
#if MC_IN_PART(2)
// many keys and values of types that own memory
template <std::size_t N, std::size_t M> void large() {
    auto mm = std::make_unique<stdx::cx_multimap<std::string, std::string, N, M>>();
    std::map<std::string, std::set<std::string>> want;
    auto name = [](std::size_t i) { return "a name that is stored apart " + std::to_string(i); };
    auto compare = [&](std::string const &what) {
        mc::Scope scp{[&] { return what; }};
        MC_EQ(mm->size(), want.size());
        MC_EQ(mm->empty(), want.empty());
        for (auto const &[k, vs] : want) {
            MC_CHECK(mm->contains(k));
            MC_EQ(mm->get(k).size(), vs.size());
            for (auto const &v : vs) { MC_CHECK(mm->contains(k, v)); }
        }
        std::size_t seen{};
        for (auto const &[k, vs] : std::as_const(*mm)) {
            MC_EQ(want.at(k).size(), vs.size());
            ++seen;
        }
        MC_EQ(seen, want.size());
        mc::step();
        mc::state(mc::hash_str(what));
    };
    auto const tag = std::to_string(N) + " keys of " + std::to_string(M) + " values: ";
    for (std::size_t i{}; i < N; ++i) {
        for (std::size_t j{}; j < M; ++j) {
            mm->insert(name(i), name(i + j));
            want[name(i)].insert(name(i + j));
        }
    }
    compare(tag + "filled");
    for (std::size_t i{}; i < N; ++i) {
        mm->put(name(i), name(i)); // already there
    }
    compare(tag + "inserted again");
    for (std::size_t i{}; i < N; i += 3) {
        MC_EQ(mm->erase(name(i)), 1u);
        want.erase(name(i));
    }
    compare(tag + "every third key erased");
    for (std::size_t i{1}; i < N; i += 3) {
        for (std::size_t j{}; j < M; ++j) {
            MC_EQ(mm->erase(name(i), name(i + j)), 1u);
            if (j == 0 and M > 1) {
                want[name(i)].erase(name(i));
                MC_CHECK(mm->contains(name(i)) and not mm->contains(name(i), name(i)));
            }
        }
        want.erase(name(i));
    }
    compare(tag + "every third key emptied");
    for (std::size_t i{}; i < N; i += 3) {
        mm->put(name(i));
        want[name(i)];
    }
    compare(tag + "keys without values");
    mm->clear();
    want.clear();
    compare(tag + "cleared");
    mc::trace();
}
MC_SECTION("large") {
    large<300, 2>();
    large<3, 300>();
    large<20, 20>();
}
MC_SECTION("closure_4_1") { MM<4, 1>::run(4, 2); }
MC_SECTION("closure_default") { MM<2, stdx::cx_multimap<u8, u8, 2>::capacity()>::run(2, 2); }
#endif
} // namespace
