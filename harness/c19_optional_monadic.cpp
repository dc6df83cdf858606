#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <mc.hpp>

#include <optional>
#include <tuple>

namespace mon {
struct V { // held type; records nothing but its value and whether it was moved from
    int n;
    explicit V(int x) : n{x} {}
    V(V const &) = default;
    V(V &&o) noexcept : n{std::exchange(o.n, -77)} {}
    auto operator=(V const &) -> V & = default;
    auto operator=(V &&o) noexcept -> V & { n = std::exchange(o.n, -77); return *this; }
    friend auto operator==(V const &a, V const &b) -> bool = default;
};
struct MO {
    std::unique_ptr<int> p;
    explicit MO(int x) : p{std::make_unique<int>(x)} {}
    friend auto operator==(MO const &a, MO const &b) { return (a.p ? *a.p : -99) == (b.p ? *b.p : -99); }
};
struct R { // result type, neither copyable nor movable
    int n;
    explicit R(int x) : n{x} {}
    R(R &&) = delete;
    friend auto operator==(R const &a, R const &b) { return a.n == b.n; }
};
struct RM { // result type, movable, with its own tombstone
    int n;
    friend auto operator==(RM const &a, RM const &b) -> bool = default;
};
} // namespace mon
template <> struct stdx::tombstone_traits<mon::V> {
    auto operator()() const { return mon::V{-1}; }
};
template <> struct stdx::tombstone_traits<mon::MO> {
    auto operator()() const { return mon::MO{-1}; }
};
template <> struct stdx::tombstone_traits<mon::R> {
    auto operator()() const { return mon::R{-1}; }
};
template <> struct stdx::tombstone_traits<mon::RM> {
    constexpr auto operator()() const { return mon::RM{-1}; }
};

namespace {
using namespace mon;
using SO = stdx::optional<V>;

enum cat { lref, clref, rref, crref };
template <typename T> constexpr auto cat_of() -> cat { // of a forwarding reference T&&
    if constexpr (std::is_lvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? clref : lref;
    } else {
        return std::is_const_v<std::remove_reference_t<T>> ? crref : rref;
    }
}
// call g with o in each of the four value categories
template <typename O> void in_each_category(O const &proto, auto g) {
    {
        O o{proto};
        mc::Scope sc{[] { return std::string{"lvalue"}; }};
        g.template operator()<lref>(static_cast<O &>(o), o);
    }
    {
        O o{proto};
        mc::Scope sc{[] { return std::string{"const lvalue"}; }};
        g.template operator()<clref>(static_cast<O const &>(o), o);
    }
    {
        O o{proto};
        mc::Scope sc{[] { return std::string{"rvalue"}; }};
        g.template operator()<rref>(static_cast<O &&>(o), o);
    }
    {
        O o{proto};
        mc::Scope sc{[] { return std::string{"const rvalue"}; }};
        g.template operator()<crref>(static_cast<O const &&>(o), o);
    }
}

template <typename O> void unary(O const &proto, int held) {
    bool const on = held >= 0;
    mc::Scope sc{[&] { return "held " + std::to_string(held); }};
    in_each_category(proto, [&]<cat C, typename X>(X &&o, O &orig) {
        auto run = [&](char const *what, auto f) {
            mc::Scope s2{[&] { return std::string{what}; }};
            int calls = 0;
            auto fn = [&]<typename A>(A &&a) -> int {
                ++calls;
                MC_EQ(static_cast<int>(cat_of<A>()), static_cast<int>(C));
                MC_CHECK(std::addressof(a) == std::addressof(*orig)); // the held object itself
                return a.n;
            };
            f(fn);
            MC_EQ(calls, on ? 1 : 0);
            MC_EQ(orig.has_value(), on); // nothing was consumed: the function took no copy
            if (on) {
                MC_EQ(orig->n, held);
            }
            mc::step();
            mc::trace();
            mc::state(mc::hash_of(mc::hash_str(what), static_cast<int>(C), held));
        };
        run("transform", [&](auto &fn) {
            auto r = std::forward<X>(o).transform([&]<typename A>(A &&a) { return RM{fn(std::forward<A>(a)) + 10}; });
            static_assert(std::is_same_v<decltype(r), stdx::optional<RM>>);
            MC_EQ(r.has_value(), on);
            MC_EQ(r->n, on ? held + 10 : -1);
        });
        run("transform to an unmovable result", [&](auto &fn) {
            auto const &r = std::forward<X>(o).transform([&]<typename A>(A &&a) -> R { return R{fn(std::forward<A>(a)) + 10}; });
            MC_EQ(r.has_value(), on);
            MC_EQ(r->n, on ? held + 10 : -1);
        });
        run("transform with an lvalue function", [&](auto &fn) {
            auto f = [&]<typename A>(A &&a) { return static_cast<float>(fn(std::forward<A>(a))); };
            auto r = std::forward<X>(o).transform(f);
            static_assert(std::is_same_v<decltype(r), stdx::optional<float>>);
            MC_EQ(r.has_value(), on);
            if (on) {
                MC_EQ(*r, static_cast<float>(held));
            }
        });
        run("transform with a const function", [&](auto &fn) {
            auto const f = [&]<typename A>(A &&a) { return static_cast<float>(fn(std::forward<A>(a))); };
            auto r = std::forward<X>(o).transform(f);
            MC_EQ(r.has_value(), on);
        });
        run("and_then -> engaged", [&](auto &fn) {
            auto r = std::forward<X>(o).and_then([&]<typename A>(A &&a) { return stdx::optional<RM>{RM{fn(std::forward<A>(a)) + 20}}; });
            static_assert(std::is_same_v<decltype(r), stdx::optional<RM>>);
            MC_EQ(r.has_value(), on);
            MC_EQ(r->n, on ? held + 20 : -1);
        });
        run("and_then -> disengaged", [&](auto &fn) {
            auto r = std::forward<X>(o).and_then([&]<typename A>(A &&a) { fn(std::forward<A>(a)); return stdx::optional<RM>{}; });
            MC_EQ(r.has_value(), false);
        });
        run("and_then -> custom tombstone", [&](auto &fn) {
            using I = stdx::optional<int, stdx::tombstone_value<-3>>;
            auto r = std::forward<X>(o).and_then([&]<typename A>(A &&a) { return I{fn(std::forward<A>(a))}; });
            static_assert(std::is_same_v<decltype(r), I>);
            MC_EQ(r.has_value(), on);
            MC_EQ(*r, on ? held : -3);
        });
        run("pipe -> engaged", [&](auto &fn) {
            auto r = std::forward<X>(o) | [&]<typename A>(A &&a) { return stdx::optional<RM>{RM{fn(std::forward<A>(a)) + 30}}; };
            static_assert(std::is_same_v<decltype(r), stdx::optional<RM>>);
            MC_EQ(r.has_value(), on);
            MC_EQ(r->n, on ? held + 30 : -1);
        });
        run("pipe -> disengaged", [&](auto &fn) {
            auto r = std::forward<X>(o) | [&]<typename A>(A &&a) { fn(std::forward<A>(a)); return stdx::optional<float>{}; };
            MC_EQ(r.has_value(), false);
        });
        run("pipe twice", [&](auto &fn) {
            int second = 0;
            auto r = std::forward<X>(o) | [&]<typename A>(A &&a) { return stdx::optional<RM>{RM{fn(std::forward<A>(a))}}; } |
                     [&](RM &&x) { ++second; return stdx::optional<RM>{RM{x.n + 1}}; };
            MC_EQ(second, on ? 1 : 0);
            MC_EQ(r.has_value(), on);
            MC_EQ(r->n, on ? held + 1 : -1);
        });
    });
    // or_else: the converse
    for (int alt : {-1, 50}) {
        auto go = [&]<typename X>(X &&o, bool moves, O &orig) {
            int calls = 0;
            auto r = std::forward<X>(o).or_else([&] { ++calls; return alt < 0 ? O{} : O{V{alt}}; });
            static_assert(std::is_same_v<decltype(r), O>);
            MC_EQ(calls, on ? 0 : 1);
            MC_EQ(r.has_value(), on or alt >= 0);
            MC_EQ(r->n, on ? held : alt);
            if (not moves) {
                MC_EQ(orig->n, held);
            }
            mc::step();
            mc::trace();
        };
        O o{proto};
        go(o, false, o);
        go(static_cast<O const &>(o), false, o);
        go(static_cast<O const &&>(o), false, o);
        go(static_cast<O &&>(o), true, o);
    }
}
#if MC_IN_PART(2)
MC_SECTION("unary") {
    unary<SO>(SO{}, -1);
    unary<SO>(SO{std::nullopt}, -1);
    for (int v : {0, 1, 7}) {
        unary<SO>(SO{V{v}}, v);
    }
}
#endif
#if MC_IN_PART(3)
// the function is called in the value category it is passed in
struct Qualified {
    auto operator()(auto &&...) & { return RM{1}; }
    auto operator()(auto &&...) const & { return RM{2}; }
    auto operator()(auto &&...) && { return RM{3}; }
    auto operator()(auto &&...) const && { return RM{4}; }
};
struct QualifiedThen {
    auto operator()(auto &&...) & { return stdx::optional<RM>{RM{1}}; }
    auto operator()(auto &&...) const & { return stdx::optional<RM>{RM{2}}; }
    auto operator()(auto &&...) && { return stdx::optional<RM>{RM{3}}; }
    auto operator()(auto &&...) const && { return stdx::optional<RM>{RM{4}}; }
};
struct QualifiedElse {
    auto operator()() & { return SO{V{1}}; }
    auto operator()() const & { return SO{V{2}}; }
    auto operator()() && { return SO{V{3}}; }
    auto operator()() const && { return SO{V{4}}; }
};
template <typename F> void as_each(auto g) { // in all four categories
    F f{};
    g(f, 1);
    g(std::as_const(f), 2);
    g(std::move(f), 3);
    g(std::move(std::as_const(f)), 4);
}
MC_SECTION("function_category") {
    auto const held = [&]<typename O>(O const &proto) {
        in_each_category(proto, [&]<cat C, typename X>(X &&o, O &) {
            as_each<Qualified>([&]<typename F>(F &&f, int want) {
                mc::Scope sc{[&] { return "function in category " + std::to_string(want); }};
                MC_EQ(std::forward<X>(o).transform(std::forward<F>(f))->n, want);
                if constexpr (std::is_same_v<O, SO>) {
                    MC_EQ(stdx::transform(std::forward<F>(f), std::forward<X>(o))->n, want);
                    MC_EQ(stdx::transform(std::forward<F>(f), std::forward<X>(o), std::as_const(proto))->n, want);
                }
                mc::step(4);
                mc::state(mc::hash_of(1, static_cast<int>(C), want));
            });
            as_each<QualifiedThen>([&]<typename F>(F &&f, int want) {
                mc::Scope sc{[&] { return "function in category " + std::to_string(want); }};
                MC_EQ(std::forward<X>(o).and_then(std::forward<F>(f))->n, want);
                MC_EQ((std::forward<X>(o) | std::forward<F>(f))->n, want);
                mc::step();
                mc::state(mc::hash_of(2, static_cast<int>(C), want));
            });
        });
    };
    held(SO{V{7}});
    held(stdx::optional<std::pair<float, V>>{std::pair<float, V>{1.5f, V{2}}});
    in_each_category(SO{}, [&]<cat C, typename X>(X &&o, SO &) {
        as_each<QualifiedElse>([&]<typename F>(F &&f, int want) {
            mc::Scope sc{[&] { return "function in category " + std::to_string(want); }};
            MC_EQ(std::forward<X>(o).or_else(std::forward<F>(f))->n, want);
            mc::step();
            mc::state(mc::hash_of(3, static_cast<int>(C), want));
        });
    });
    mc::trace();
}
// functions that take the value itself: an rvalue optional gives it away, any other keeps it
MC_SECTION("by_value") {
    for (int held : {-1, 0, 4}) {
        SO const proto = held < 0 ? SO{} : SO{V{held}};
        in_each_category(proto, [&]<cat C, typename X>(X &&o, SO &orig) {
            int calls = 0;
            auto r = std::forward<X>(o).transform([&](V v) { ++calls; return RM{v.n}; });
            MC_EQ(calls, held < 0 ? 0 : 1);
            MC_EQ(r->n, held);
            MC_EQ(orig->n, C == rref and held >= 0 ? -77 : held);
            mc::step();
            mc::state(mc::hash_of(static_cast<int>(C), held));
        });
        in_each_category(proto, [&]<cat C, typename X>(X &&o, SO &orig) {
            int calls = 0;
            auto r = std::forward<X>(o) | [&](V v) { ++calls; return SO{v}; };
            MC_EQ(calls, held < 0 ? 0 : 1);
            MC_EQ(r->n, held);
            MC_EQ(orig->n, C == rref and held >= 0 ? -77 : held);
            mc::step();
            mc::trace();
        });
        SO o{proto};
        auto r = std::move(o).or_else([] { return SO{V{9}}; });
        MC_EQ(r->n, held < 0 ? 9 : held);
        MC_EQ(o->n, held < 0 ? -1 : -77); // moved, not copied
    }
    // move-only held value
    for (int held : {-1, 3}) {
        auto mk = [&] { return held < 0 ? stdx::optional<MO>{} : stdx::optional<MO>{MO{held}}; };
        int calls = 0;
        auto r = mk().transform([&](MO m) { ++calls; return MO{*m.p + 1}; });
        MC_EQ(*r->p, held < 0 ? -1 : held + 1);
        auto q = mk() | [&](MO m) { ++calls; return stdx::optional<MO>{std::move(m)}; };
        MC_EQ(*q->p, held);
        auto w = mk().or_else([&] { ++calls; return stdx::optional<MO>{MO{8}}; });
        MC_EQ(*w->p, held < 0 ? 8 : held);
        auto z = mk();
        auto y = z.transform([&](MO &m) { ++calls; return static_cast<float>(*m.p); });
        MC_EQ(y.has_value(), held >= 0);
        MC_EQ(calls, held < 0 ? 1 : 3);
        MC_EQ(*z->p, held);
        mc::step(4);
        mc::trace();
    }
}

#endif
// ---- tuple-like held values are unpacked
template <typename Tup, typename TS> void unpack_case(std::optional<int> held) {
    using O = stdx::optional<Tup, TS>;
    bool const on = held.has_value();
    O const proto = on ? O{Tup{static_cast<float>(*held), V{*held + 1}}} : O{};
    mc::Scope sc{[&] { return "tuple held " + std::to_string(held.value_or(-1)); }};
    in_each_category(proto, [&]<cat C, typename X>(X &&o, O &) {
        int calls = 0;
        auto f = [&]<typename A, typename B>(A &&a, B &&b) {
            ++calls;
            if constexpr (C != crref) { // elements of a const rvalue tuple: const lvalue or const rvalue
                MC_EQ(static_cast<int>(cat_of<A>()), static_cast<int>(C));
                MC_EQ(static_cast<int>(cat_of<B>()), static_cast<int>(C));
            } else {
                MC_CHECK(std::is_const_v<std::remove_reference_t<A>> and std::is_const_v<std::remove_reference_t<B>>);
            }
            return RM{static_cast<int>(a) * 100 + b.n};
        };
        int const want = on ? *held * 100 + *held + 1 : -1;
        auto r = std::forward<X>(o).transform(f);
        MC_EQ(r->n, want);
        MC_EQ(r.has_value(), on);
        MC_EQ(calls, on ? 1 : 0);
        auto g = [&]<typename A, typename B>(A &&a, B &&b) { return stdx::optional<RM>{f(std::forward<A>(a), std::forward<B>(b))}; };
        auto r2 = std::forward<X>(o).and_then(g);
        MC_EQ(r2->n, want);
        auto r3 = std::forward<X>(o) | g;
        MC_EQ(r3->n, want);
        MC_EQ(calls, on ? 3 : 0);
        auto r4 = std::forward<X>(o).or_else([&] { ++calls; return O{}; });
        MC_EQ(r4.has_value(), on);
        mc::step(4);
        mc::trace();
        mc::state(mc::hash_of(static_cast<int>(C), held.value_or(-1)));
    });
}
struct st_ts {
    auto operator()() const { return stdx::tuple<float, V>{-9.0f, V{-9}}; }
};
template <typename Tup, typename TS = stdx::tombstone_traits<Tup>> void unpack() {
    unpack_case<Tup, TS>({});
    unpack_case<Tup, TS>(0);
    unpack_case<Tup, TS>(5);
}
#if MC_IN_PART(3)
MC_SECTION("unpack_std_tuple") { unpack<std::tuple<float, V>>(); }
MC_SECTION("unpack_std_pair") { unpack<std::pair<float, V>>(); }
MC_SECTION("unpack_stdx_tuple") { unpack<stdx::tuple<float, V>, st_ts>(); }

#endif
// ---- n-ary transform: every combination of engaged/disengaged and of value categories
template <typename O> struct Nary {
    static auto mk(bool on, int v) -> O { return on ? O{V{v}} : O{}; }
    template <cat C> static auto as(O &o) -> decltype(auto) {
        if constexpr (C == lref) {
            return static_cast<O &>(o);
        } else if constexpr (C == clref) {
            return static_cast<O const &>(o);
        } else if constexpr (C == rref) {
            return static_cast<O &&>(o);
        } else {
            return static_cast<O const &&>(o);
        }
    }
    constexpr static bool is_std = stdx::is_specialization_of_v<O, std::optional>;
    template <typename Rt> using Res = std::conditional_t<is_std, std::optional<Rt>, stdx::optional<Rt>>;

    template <cat... Cs> static void run() {
        constexpr auto n = sizeof...(Cs);
        for (unsigned mask = 0; mask < (1u << n); ++mask) {
            mc::Scope sc{[&] {
                return "categories" + ((" " + std::to_string(static_cast<int>(Cs))) + ...) + " engaged mask " + std::to_string(mask);
            }};
            [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                bool const all = mask == (1u << n) - 1;
                {
                    O os[n] = {mk((mask >> Is) & 1u, static_cast<int>(Is) + 1)...};
                    int calls = 0;
                    auto f = [&]<typename... As>(As &&...as) {
                        ++calls;
                        MC_CHECK(((cat_of<As>() == Cs) and ...));
                        MC_CHECK(((std::addressof(as) == std::addressof(*os[Is])) and ...));
                        int r = 0;
                        ((r = r * 10 + as.n), ...);
                        return RM{r};
                    };
                    auto r = stdx::transform(f, as<Cs>(os[Is])...);
                    static_assert(std::is_same_v<decltype(r), Res<RM>>);
                    MC_EQ(calls, all ? 1 : 0);
                    MC_EQ(r.has_value(), all);
                    if (all) {
                        int want = 0;
                        ((want = want * 10 + static_cast<int>(Is) + 1), ...);
                        MC_EQ(r->n, want);
                    }
                    MC_CHECK(((os[Is].has_value() == (((mask >> Is) & 1u) != 0)) and ...));
                }
                {
                    O os[n] = {mk((mask >> Is) & 1u, static_cast<int>(Is) + 1)...};
                    int calls = 0;
                    auto const &r = stdx::transform([&](auto... vs) -> R { ++calls; return R{(0 + ... + vs.n)}; }, as<Cs>(os[Is])...);
                    MC_EQ(calls, all ? 1 : 0);
                    MC_EQ(r.has_value(), all);
                    if (all) {
                        MC_EQ(r->n, (0 + ... + (static_cast<int>(Is) + 1)));
                    }
                    if (all) { // taken by value: only rvalue arguments are moved from
                        MC_CHECK((((os[Is]->n == -77) == (Cs == rref)) and ...));
                    } else {
                        MC_CHECK(((not os[Is].has_value() or os[Is]->n == static_cast<int>(Is) + 1) and ...));
                    }
                }
            }(std::make_index_sequence<n>{});
            mc::step(2);
            mc::trace();
            mc::state(mc::hash_of(n, mask, static_cast<int>(Cs)...));
        }
    }
    template <cat... Cs> static void upto(auto depth) {
        if constexpr (sizeof...(Cs) > 0) {
            run<Cs...>();
        }
        if constexpr (depth() > 0) {
            constexpr std::integral_constant<int, depth() - 1> k;
            upto<Cs..., lref>(k);
            upto<Cs..., clref>(k);
            upto<Cs..., rref>(k);
            upto<Cs..., crref>(k);
        }
    }
};
constexpr std::integral_constant<int, MC_TIER_THOROUGH ? 3 : 2> arity;
#if MC_IN_PART(0)
MC_SECTION("nary_stdx") { Nary<SO>::upto(arity); }
MC_SECTION("nary_stdx_3_4") {
    Nary<SO>::run<lref, rref, clref>();
    Nary<SO>::run<rref, rref, rref>();
    Nary<SO>::run<rref, lref, crref, clref>();
    Nary<SO>::run<clref, clref, clref, clref, clref>();
}
#endif
#if MC_IN_PART(1)
MC_SECTION("nary_std") { Nary<std::optional<V>>::upto(arity); }
MC_SECTION("nary_std_3_4") {
    Nary<std::optional<V>>::run<lref, rref, clref>();
    Nary<std::optional<V>>::run<rref, rref, rref>();
    Nary<std::optional<V>>::run<rref, lref, crref, clref>();
    Nary<std::optional<V>>::run<clref, clref, clref, clref, clref>();
}
#endif
#if MC_IN_PART(2)
MC_SECTION("nary_mixed_types") { // different value types and tombstones, same kind of optional
    for (int a : {-1, 4}) {
        for (int b : {0, 1}) {
            for (int c : {0, 1}) {
                auto oa = stdx::optional<int, stdx::tombstone_value<-1>>{a};
                auto ob = b ? stdx::optional<float>{2.5f} : stdx::optional<float>{};
                auto oc = c ? stdx::optional<MO>{MO{6}} : stdx::optional<MO>{};
                int calls = 0;
                auto r = stdx::transform([&](int x, float y, MO z) { ++calls; return static_cast<float>(x) + y + static_cast<float>(*z.p); },
                                         oa, ob, std::move(oc));
                bool const all = a == 4 and b and c;
                MC_EQ(calls, all ? 1 : 0);
                MC_EQ(r.has_value(), all);
                if (all) {
                    MC_EQ(*r, 12.5f);
                }
                mc::step();
                mc::state(mc::hash_of(a, b, c));
            }
        }
    }
    mc::trace();
}
#endif
} // namespace
