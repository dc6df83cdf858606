#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>

#include <mc.hpp>
#include <cmath>
#include <tuple>
namespace {
using std::size_t;

// ---- element access: every mixture of value, const value and reference elements
template <size_t I> struct V { // a distinct type per position
    int v{};
    friend auto operator==(V const &, V const &) -> bool = default;
    friend auto operator<=>(V const &, V const &) = default;
};
enum Kind { val, cval, ref, cref, rref };
template <typename T, int K> struct kind;
template <typename T> struct kind<T, val> { using type = T; };
template <typename T> struct kind<T, cval> { using type = T const; };
template <typename T> struct kind<T, ref> { using type = T &; };
template <typename T> struct kind<T, cref> { using type = T const &; };
template <typename T> struct kind<T, rref> { using type = T &&; };

template <int... Ks> struct Access {
    template <size_t... Is> static void run(std::index_sequence<Is...>) {
        std::tuple<V<Is>...> src{V<Is>{static_cast<int>(Is) + 1}...};
        using T = stdx::tuple<typename kind<V<Is>, Ks>::type...>;
        std::string what;
        ((what += "vclkr"[Ks]), ...);
        mc::Scope sc{[&] { return "elements " + what + " (v value, c const, l reference, k const reference, r rvalue reference)"; }};
        T t{static_cast<typename kind<V<Is>, Ks>::type &&>(std::get<Is>(src))...};
        static_assert(stdx::tuple_size_v<T> == sizeof...(Is) and T::size() == sizeof...(Is));
        auto one = [&]<size_t I, int K>() {
            using E = typename kind<V<I>, K>::type;
            static_assert(std::is_same_v<stdx::tuple_element_t<I, T>, E>);
            static_assert(std::is_same_v<std::tuple_element_t<I, T>, E>);
            auto const &ct = t;
            // types
            static_assert(std::is_same_v<decltype(stdx::get<I>(t)), E &>);
            static_assert(std::is_same_v<decltype(t[stdx::index<I>]), E &>);
            static_assert(std::is_same_v<decltype(stdx::get<E>(t)), E &>);
            static_assert(std::is_same_v<decltype(stdx::get<I>(ct)), E const &>);
            static_assert(std::is_same_v<decltype(ct[stdx::index<I>]), E const &>);
            static_assert(std::is_same_v<decltype(stdx::get<E>(ct)), E const &>);
            static_assert(std::is_same_v<decltype(stdx::get<I>(std::move(t))), E &&>);
            static_assert(std::is_same_v<decltype(std::move(t)[stdx::index<I>]), E &&>);
            static_assert(std::is_same_v<decltype(stdx::get<E>(std::move(t))), E &&>);
            // identity
            auto const *p = &stdx::get<I>(t);
            MC_EQ(p->v, static_cast<int>(I) + 1);
            auto at = [](auto &&r) { return std::addressof(r); };
            MC_CHECK(at(t[stdx::index<I>]) == p and at(stdx::get<E>(t)) == p);
            MC_CHECK(at(stdx::get<I>(ct)) == p and at(ct[stdx::index<I>]) == p and at(stdx::get<E>(ct)) == p);
            MC_CHECK(at(stdx::get<I>(std::move(t))) == p and at(std::move(t)[stdx::index<I>]) == p and
                     at(stdx::get<E>(std::move(t))) == p);
            MC_CHECK(at(stdx::get<I>(std::move(ct))) == p);
            MC_EQ(static_cast<void const *>(p) == &std::get<I>(src), std::is_reference_v<E>);
            if constexpr (not std::is_const_v<std::remove_reference_t<E>>) {
                stdx::get<I>(t).v = 77;
                MC_EQ(p->v, 77);
                MC_EQ(std::get<I>(src).v, std::is_reference_v<E> ? 77 : static_cast<int>(I) + 1);
                stdx::get<I>(t).v = static_cast<int>(I) + 1;
            }
            mc::step(10);
        };
        (one.template operator()<Is, Ks>(), ...);
        // all elements at once, by apply
        t.apply([&](auto &&...es) {
            static_assert((std::is_same_v<decltype(es), typename kind<V<Is>, Ks>::type &> and ...));
            MC_CHECK(((&es == &stdx::get<Is>(t)) and ...));
        });
        std::as_const(t).apply([&](auto &&...es) {
            static_assert((std::is_same_v<decltype(es), typename kind<V<Is>, Ks>::type const &> and ...));
            MC_CHECK(((&es == &stdx::get<Is>(t)) and ...));
        });
        std::move(t).apply([&](auto &&...es) {
            static_assert((std::is_same_v<decltype(es), typename kind<V<Is>, Ks>::type &&> and ...));
            MC_CHECK(((&es == &stdx::get<Is>(t)) and ...));
        });
        stdx::apply(
            [&](auto &&...es) {
                static_assert((std::is_same_v<decltype(es), typename kind<V<Is>, Ks>::type &> and ...));
                MC_CHECK(((&es == &stdx::get<Is>(t)) and ...));
            },
            t);
        bindings(t, src);
        mc::step(3);
        mc::trace();
        mc::state(mc::hash_str(what));
    }
    template <typename T, typename S> static void bindings(T &t, S &) {
        if constexpr (sizeof...(Ks) == 1) {
            auto &[a] = t;
            auto const &[b] = t;
            auto &&[c] = std::move(t);
            MC_CHECK(&a == &stdx::get<0>(t) and &b == &a and &c == &a);
        } else if constexpr (sizeof...(Ks) == 2) {
            auto &[a, x] = t;
            auto const &[b, y] = t;
            auto &&[c, z] = std::move(t);
            MC_CHECK(&a == &stdx::get<0>(t) and &b == &a and &c == &a);
            MC_CHECK(&x == &stdx::get<1>(t) and &y == &x and &z == &x);
        } else if constexpr (sizeof...(Ks) == 3) {
            auto &[a, x, k] = t;
            auto const &[b, y, l] = t;
            auto &&[c, z, m] = std::move(t);
            MC_CHECK(&a == &stdx::get<0>(t) and &b == &a and &c == &a);
            MC_CHECK(&x == &stdx::get<1>(t) and &y == &x and &z == &x);
            MC_CHECK(&k == &stdx::get<2>(t) and &l == &k and &m == &k);
            if constexpr (((Ks != rref) and ...)) {
                auto [v0, v1, v2] = t; // a copy
                MC_CHECK(v0 == a and v1 == x and v2 == k);
            }
        }
    }
};
template <int A> void access2() {
    [&]<int... Bs>(std::integer_sequence<int, Bs...>) {
        (Access<A, Bs>::run(std::make_index_sequence<2>{}), ...);
    }(std::make_integer_sequence<int, 5>{});
}
template <int A, int B> void access3() {
    [&]<int... Cs>(std::integer_sequence<int, Cs...>) {
        (Access<A, B, Cs>::run(std::make_index_sequence<3>{}), ...);
    }(std::make_integer_sequence<int, 5>{});
}
#if MC_IN_PART(0)
MC_SECTION("access_1_2") {
    [&]<int... As>(std::integer_sequence<int, As...>) {
        (Access<As>::run(std::make_index_sequence<1>{}), ...);
        (access2<As>(), ...);
    }(std::make_integer_sequence<int, 5>{});
}
#endif
#if MC_IN_PART(1)
MC_SECTION("access_3a") {
    access3<val, val>();
    access3<val, ref>();
    access3<val, cref>();
}
#endif
#if MC_IN_PART(2)
MC_SECTION("access_3b") {
    access3<ref, val>();
    access3<rref, cval>();
    access3<cref, rref>();
}
#endif
#if MC_IN_PART(6)
MC_SECTION("access_3c") {
    access3<val, cval>();
    access3<val, rref>();
    access3<cval, val>();
    access3<cval, cval>();
    access3<cval, ref>();
    access3<cval, cref>();
    access3<cval, rref>();
    access3<ref, cval>();
}
#endif
#if MC_IN_PART(7)
MC_SECTION("access_3d") {
    access3<ref, ref>();
    access3<ref, cref>();
    access3<ref, rref>();
    access3<cref, val>();
    access3<cref, cval>();
    access3<cref, ref>();
    access3<cref, cref>();
    access3<rref, val>();
    access3<rref, ref>();
    access3<rref, cref>();
    access3<rref, rref>();
}
#endif

// ---- more elements, literals, empty elements, repeated types
#if MC_IN_PART(3)
struct E0 {};
struct E1 {};
MC_SECTION("access_long") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        stdx::tuple<V<Is>...> t{V<Is>{static_cast<int>(Is) * 3}...};
        auto one = [&]<size_t I>() {
            MC_EQ(stdx::get<I>(t).v, static_cast<int>(I) * 3);
            MC_EQ(stdx::get<V<I>>(t).v, static_cast<int>(I) * 3);
            MC_EQ(std::as_const(t)[stdx::index<I>].v, static_cast<int>(I) * 3);
            stdx::get<I>(t).v += 1;
            MC_EQ(t[stdx::index<I>].v, static_cast<int>(I) * 3 + 1);
            mc::step(4);
            mc::state(mc::hash_of(I, 99));
        };
        (one.template operator()<Is>(), ...);
    }(std::make_index_sequence<40>{});
    using namespace stdx::literals;
    auto t = stdx::tuple{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; // one type throughout
    MC_EQ(t[0_idx], 1);
    MC_EQ(t[9_idx], 10);
    MC_EQ(t[10_idx], 11);
    MC_EQ(t[11_idx], 12);
    MC_EQ(t[0xb_idx], 12);
    MC_EQ(t[0b11_idx], 4);
    auto e = stdx::tuple{E0{}, 1, E0{}, E1{}, 2, E1{}};
    MC_EQ(stdx::get<1>(e), 1);
    MC_EQ(stdx::get<4>(e), 2);
    stdx::get<1>(e) = 5;
    stdx::get<4>(e) = 6;
    stdx::get<2>(e) = E0{};
    stdx::get<5>(e) = E1{};
    MC_EQ(stdx::get<1>(e), 5);
    MC_EQ(stdx::get<4>(e), 6);
    auto nested = stdx::tuple{stdx::tuple{1, 2}, stdx::tuple{3}, stdx::tuple{}};
    MC_EQ(stdx::get<1>(stdx::get<0>(nested)), 2);
    MC_EQ(stdx::get<0>(stdx::get<1>(nested)), 3);
    mc::trace();
}
// make_tuple and forward_as_tuple
MC_SECTION("making") {
    int x = 1;
    int const y = 2;
    V<0> z{3};
    auto m = stdx::make_tuple(x, y, std::move(z), "ab");
    static_assert(std::is_same_v<decltype(m), stdx::tuple<int, int, V<0>, char const *>>);
    MC_CHECK(stdx::get<0>(m) == 1 and stdx::get<1>(m) == 2 and stdx::get<2>(m).v == 3);
    auto f = stdx::forward_as_tuple(x, y, std::move(z));
    static_assert(std::is_same_v<decltype(f), stdx::tuple<int &, int const &, V<0> &&>>);
    MC_CHECK(&stdx::get<0>(f) == &x and &stdx::get<1>(f) == &y and &stdx::get<2>(f) == &z);
    auto c = stdx::tuple{x, y, z};
    static_assert(std::is_same_v<decltype(c), stdx::tuple<int, int, V<0>>>);
    static_assert(std::is_same_v<decltype(stdx::make_tuple()), stdx::tuple<>> and std::is_same_v<decltype(stdx::tuple{}), stdx::tuple<>>);
    // assignment and copies
    auto c2 = c;
    stdx::get<0>(c2) = 9;
    MC_EQ(stdx::get<0>(c), 1);
    c = c2;
    MC_EQ(stdx::get<0>(c), 9);
    mc::step(6);
    mc::trace();
}
// ---- indexed tuples
template <typename K, typename T> struct Ent {
    using key = K;
    using value = T;
    int v{};
};
template <typename T> using key_for = typename T::key;
template <typename T> using value_for = typename T::value;
struct K0;
struct K1;
struct K2;
struct X0;
struct X1;
struct X2;
template <bool Two = false, typename T> void indexed_checks(T &&t, int a, int b, int c) {
    auto eq = [&](auto const &r, int want) {
        MC_EQ(r.v, want);
        mc::step();
    };
    eq(stdx::get<K0>(t), a);
    eq(stdx::get<K1>(t), b);
    eq(stdx::get<K2>(t), c);
    eq(stdx::get<Ent<K0, X0>>(t), a);
    eq(stdx::get<Ent<K1, X1>>(t), b);
    eq(stdx::get<Ent<K2, X2>>(t), c);
    eq(t.get(stdx::tag<K0>), a);
    eq(t.get(stdx::tag<K2>), c);
    MC_CHECK(&stdx::get<K1>(t) == &stdx::get<Ent<K1, X1>>(t));
    static_assert(std::is_same_v<decltype(stdx::get<K1>(t)), Ent<K1, X1> &>);
    static_assert(std::is_same_v<decltype(stdx::get<K1>(std::as_const(t))), Ent<K1, X1> const &>);
    static_assert(std::is_same_v<decltype(stdx::get<K1>(std::move(t))), Ent<K1, X1> &&>);
    stdx::get<K0>(t).v += 100;
    eq(stdx::get<K0>(std::as_const(t)), a + 100);
    eq(stdx::get<K0>(std::move(t)), a + 100);
    stdx::get<K0>(t).v -= 100;
    if constexpr (Two) {
        eq(stdx::get<X0>(t), a);
        eq(stdx::get<X1>(t), b);
        eq(stdx::get<X2>(t), c);
        eq(stdx::get<X1>(std::as_const(t)), b);
    }
    mc::trace();
}
MC_SECTION("indexed") {
    using A = Ent<K0, X0>;
    using B = Ent<K1, X1>;
    using C = Ent<K2, X2>;
    auto with = [&](auto a, auto b, auto c) {
        auto find = [&](auto k) {
            return [&]<typename K>(K *) {
                int r = 0;
                ((std::is_same_v<typename decltype(a)::key, K> ? void(r = a.v) : void()));
                ((std::is_same_v<typename decltype(b)::key, K> ? void(r = b.v) : void()));
                ((std::is_same_v<typename decltype(c)::key, K> ? void(r = c.v) : void()));
                return r;
            }(k);
        };
        auto const x = find(static_cast<K0 *>(nullptr)), y = find(static_cast<K1 *>(nullptr)), z = find(static_cast<K2 *>(nullptr));
        indexed_checks(stdx::make_indexed_tuple<key_for>(a, b, c), x, y, z);
        auto both = stdx::make_indexed_tuple<key_for, value_for>(a, b, c);
        indexed_checks<true>(both, x, y, z);
        auto plain = stdx::tuple{a, b, c};
        indexed_checks(stdx::apply_indices<key_for>(plain), x, y, z);
        indexed_checks<true>(stdx::apply_indices<value_for, key_for>(std::as_const(plain)), x, y, z);
        indexed_checks(stdx::apply_indices<key_for>(std::move(plain)), x, y, z);
        indexed_checks(stdx::transform<key_for>([](auto e) { return e; }, stdx::tuple{a, b, c}), x, y, z);
        mc::state(mc::hash_of(x, y, z));
        auto it = stdx::make_indexed_tuple<key_for>(a, b, c);
        auto &[p, q, r] = it;
        MC_CHECK(p.v == a.v and q.v == b.v and r.v == c.v and &p == &stdx::get<0>(it));
        MC_EQ(stdx::get<1>(it).v, b.v);
    };
    A a{1};
    B b{2};
    C c{3};
    with(a, b, c);
    with(a, c, b);
    with(b, a, c);
    with(b, c, a);
    with(c, a, b);
    with(c, b, a);
}
#endif

// ---- comparison
template <typename L, typename R, typename SL, typename SR> void cmp(L const &l, R const &r, SL const &sl, SR const &sr) {
    MC_EQ(l == r, sl == sr);
    MC_EQ(l != r, sl != sr);
    MC_EQ(l < r, sl < sr);
    MC_EQ(l <= r, sl <= sr);
    MC_EQ(l > r, sl > sr);
    MC_EQ(l >= r, sl >= sr);
    MC_CHECK((l <=> r) == (sl <=> sr));
    MC_CHECK((std::is_same_v<decltype(l <=> r), decltype(sl <=> sr)>));
    mc::step(7);
}
struct OnlyEq {
    int v;
    friend constexpr auto operator==(OnlyEq const &a, OnlyEq const &b) -> bool { return a.v == b.v; }
};
struct Weak { // equivalent without being equal in every bit
    int v;
    friend constexpr auto operator==(Weak const &a, Weak const &b) -> bool { return a.v / 2 == b.v / 2; }
    friend constexpr auto operator<=>(Weak const &a, Weak const &b) -> std::weak_ordering { return a.v / 2 <=> b.v / 2; }
};
constexpr auto ct_compare() -> int { // the number of disagreements with std::tuple
    int bad = 0, n = 0;
    for (int a = 0; a < 3; ++a) {
        for (int b = 0; b < 3; ++b) {
            for (int c = 0; c < 3; ++c) {
                for (int d = 0; d < 3; ++d) {
                    stdx::tuple l{a, b}, r{c, d};
                    std::tuple sl{a, b}, sr{c, d};
                    bad += (l == r) != (sl == sr);
                    bad += (l < r) != (sl < sr);
                    bad += (l >= r) != (sl >= sr);
                    bad += (l <=> r) != (sl <=> sr);
                    stdx::tuple<long, short> m{c, static_cast<short>(d)};
                    bad += (l == m) != (sl == sr);
                    bad += (l > m) != (sl > sr);
                    ++n;
                }
            }
        }
    }
    return n == 81 ? bad : -1;
}
#if MC_IN_PART(4)
MC_SECTION("compare") {
    int v[6]{};
    mc::Scope sc{[&] { return "values " + std::to_string(v[0]) + std::to_string(v[1]) + std::to_string(v[2]) + " against " + std::to_string(v[3]) + std::to_string(v[4]) + std::to_string(v[5]); }};
    double const ds[] = {0.0, 1.0, -0.0, std::nan("")};
    mc::all_choices([&](mc::Choices &ch) {
        for (auto &x : v) {
            x = static_cast<int>(ch.next(3));
        }
        auto [a, b, c, d, e, f] = v;
        cmp(stdx::tuple{a, b, c}, stdx::tuple{d, e, f}, std::tuple{a, b, c}, std::tuple{d, e, f});
        cmp(stdx::tuple<int, long, char>{a, b, static_cast<char>(c)}, stdx::tuple<short, int, int>{static_cast<short>(d), e, f}, std::tuple{a, b, c},
            std::tuple{d, e, f});
        cmp(stdx::tuple{a, b}, stdx::tuple{d, e}, std::tuple{a, b}, std::tuple{d, e});
        cmp(stdx::tuple{a}, stdx::tuple{d}, std::tuple{a}, std::tuple{d});
        cmp(stdx::tuple<int &, int const &>{a, b}, stdx::tuple<int, int>{d, e}, std::tuple{a, b}, std::tuple{d, e});
        cmp(stdx::tuple{stdx::tuple{a, b}, c}, stdx::tuple{stdx::tuple{d, e}, f}, std::tuple{a, b, c}, std::tuple{d, e, f});
        cmp(stdx::tuple{Weak{a}, Weak{b}}, stdx::tuple{Weak{d}, Weak{e}}, std::tuple{Weak{a}, Weak{b}}, std::tuple{Weak{d}, Weak{e}});
        cmp(stdx::tuple{Weak{a}, b}, stdx::tuple{Weak{d}, e}, std::tuple{Weak{a}, b}, std::tuple{Weak{d}, e});
        cmp(stdx::make_indexed_tuple<>(a, b, c), stdx::tuple{d, e, f}, std::tuple{a, b, c}, std::tuple{d, e, f});
        MC_EQ((stdx::tuple{OnlyEq{a}, b} == stdx::tuple{OnlyEq{d}, e}), a == d and b == e);
        MC_EQ((stdx::tuple{OnlyEq{a}, b} != stdx::tuple{OnlyEq{d}, e}), not(a == d and b == e));
        mc::trace();
        mc::state(mc::hash_of(a, b, c, d, e, f));
    });
    mc::all_choices([&](mc::Choices &ch) { // unordered values
        int i[4];
        for (auto &x : i) {
            x = static_cast<int>(ch.next(4));
        }
        cmp(stdx::tuple{ds[i[0]], ds[i[1]]}, stdx::tuple{ds[i[2]], ds[i[3]]}, std::tuple{ds[i[0]], ds[i[1]]}, std::tuple{ds[i[2]], ds[i[3]]});
        cmp(stdx::tuple{i[0], ds[i[1]]}, stdx::tuple{i[2], ds[i[3]]}, std::tuple{i[0], ds[i[1]]}, std::tuple{i[2], ds[i[3]]});
        mc::trace();
    });
    cmp(stdx::tuple{}, stdx::tuple{}, std::tuple{}, std::tuple{});
    constexpr auto bad = ct_compare();
    MC_EQ(bad, 0);
    MC_EQ(ct_compare(), 0);
}
MC_SECTION("one_of") {
    mc::all_choices([&](mc::Choices &ch) {
        int const a = static_cast<int>(ch.next(4)), b = static_cast<int>(ch.next(4)), c = static_cast<int>(ch.next(4)), v = static_cast<int>(ch.next(5));
        mc::Scope sc{[&] { return "one_of " + std::to_string(a) + std::to_string(b) + std::to_string(c) + " and " + std::to_string(v); }};
        bool const in3 = v == a or v == b or v == c;
        MC_EQ((stdx::one_of{a, b, c} == v), in3);
        MC_EQ((v == stdx::one_of{a, b, c}), in3);
        MC_EQ((stdx::one_of{a, b, c} != v), not in3);
        MC_EQ((v != stdx::one_of{a, b, c}), not in3);
        MC_EQ((v == stdx::one_of{a, b}), v == a or v == b);
        MC_EQ((v == stdx::one_of{a}), v == a);
        MC_EQ((v == stdx::one_of{}), false);
        MC_EQ((stdx::one_of{a, static_cast<long>(b), static_cast<char>(c)} == v), in3);
        MC_EQ((static_cast<short>(v) == stdx::one_of{a, static_cast<long>(b), static_cast<char>(c)}), in3);
        MC_EQ((stdx::one_of{a, b, c, a, b} == v), in3);
        mc::step(10);
        mc::trace();
        mc::state(mc::hash_of(a, b, c, v, 5));
    });
}
#endif

// ---- folds
struct Sym { // a term built by an operation
    std::string s;
};
template <typename A, typename B> auto term(A const &a, B const &b) -> std::string {
    auto str = [](auto const &x) {
        if constexpr (requires { x.s; }) {
            return x.s;
        } else if constexpr (requires { x.v; }) {
            return std::to_string(x.v);
        } else {
            return std::to_string(x);
        }
    };
    return "(" + str(a) + "," + str(b) + ")";
}
template <size_t N> void folds() {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        using T = stdx::tuple<V<Is>...>;
        auto const make = [] { return T{V<Is>{static_cast<int>(Is) + 1}...}; };
        mc::Scope sc{[&] { return "fold over " + std::to_string(N) + " elements"; }};
        std::string left = "i", right = "i", join;
        for (size_t k = 0; k < N; ++k) {
            left = "(" + left + "," + std::to_string(k + 1) + ")";
            right = "(" + std::to_string(N - k) + "," + right + ")";
            join = k == 0 ? "1" : "(" + join + "," + std::to_string(k + 1) + ")";
        }
        int calls = 0;
        auto op = [&](auto const &a, auto const &b) {
            ++calls;
            return Sym{term(a, b)};
        };
        auto check = [&](std::string const &got, std::string const &want, size_t n) {
            MC_EQ(got, want);
            MC_EQ(calls, static_cast<int>(n));
            calls = 0;
            mc::step();
        };
        T t = make();
        T const ct = make();
        check(t.fold_left(Sym{"i"}, op).s, left, N);
        check(ct.fold_left(Sym{"i"}, op).s, left, N);
        check(make().fold_left(Sym{"i"}, op).s, left, N);
        check(t.fold_right(Sym{"i"}, op).s, right, N);
        check(ct.fold_right(Sym{"i"}, op).s, right, N);
        check(make().fold_right(Sym{"i"}, op).s, right, N);
        Sym const init{"i"};
        check(t.fold_left(init, op).s, left, N);
        check(t.fold_right(init, op).s, right, N);
        auto text = [](auto const &x) {
            if constexpr (requires { x.s; }) {
                return x.s;
            } else {
                return std::to_string(x.v);
            }
        };
        if constexpr (N > 0) {
            check(text(t.join(op)), join, N - 1);
            check(text(ct.join(op)), join, N - 1);
            check(text(make().join(op)), join, N - 1);
            auto const tl = [&](auto &&tail) {
                static_assert(stdx::tuple_size_v<std::remove_cvref_t<decltype(tail)>> == N - 1);
                std::string s;
                int n = 0;
                tail.apply([&](auto const &...es) {
                    ((s += std::to_string(es.v) + ";"), ...);
                    ((n += 1, void(es)), ...);
                });
                std::string want;
                for (size_t k = 1; k < N; ++k) {
                    want += std::to_string(k + 1) + ";";
                }
                MC_EQ(s, want);
                MC_EQ(n, static_cast<int>(N) - 1);
                mc::step();
            };
            tl(t.tail());
            tl(ct.tail());
            tl(make().tail());
        } else {
            static_assert(stdx::tuple_size_v<decltype(t.tail())> == 0);
        }
        auto const jw = N == 0 ? std::string{"i"} : join;
        auto const jn = N == 0 ? 0 : N - 1;
        check(text(t.join(Sym{"i"}, op)), jw, jn);
        check(text(ct.join(init, op)), jw, jn);
        check(text(make().join(Sym{"i"}, op)), jw, jn);
        // folds that change type at every step
        auto grow = [](auto so_far, auto y) { return stdx::tuple_snoc(so_far, y); };
        auto g = t.fold_left(stdx::tuple{}, grow);
        static_assert(std::is_same_v<decltype(g), T>);
        MC_CHECK(g == t);
        auto g2 = t.fold_right(stdx::tuple{}, [](auto y, auto so_far) { return stdx::tuple_cons(y, so_far); });
        static_assert(std::is_same_v<decltype(g2), T>);
        MC_CHECK(g2 == t);
        MC_EQ(size_t{T::size()}, N);
        MC_EQ(bool{T::empty()}, N == 0);
        MC_EQ(stdx::tuple_size_v<T>, N);
        // apply returns what the function returns
        static_assert(std::is_same_v<decltype(t.apply([](auto &...) -> int & { static int k; return k; })), int &>);
        int seen = 0;
        auto r = t.apply([&](auto const &...es) {
            int k = 1;
            ((MC_EQ(es.v, k), ++k, ++seen), ...);
            return k * 10;
        });
        MC_EQ(r, (static_cast<int>(N) + 1) * 10);
        MC_EQ(seen, static_cast<int>(N));
        mc::trace();
        mc::state(mc::hash_of(N, 4321));
    }(std::make_index_sequence<N>{});
}
#if MC_IN_PART(5)
// the type of every element, at every position of up to three, is the type given
enum struct Enm : char {};
struct Agg { int a; };
using Kinds = mc::list<int, int const, int &, int const &, int &&, int const &&, double const, int *, int *const, int const *, Enm, Enm const, Agg,
                       Agg const, std::nullptr_t const, int (*)(int), int (*const)(), int Agg::*const, bool const volatile, std::unique_ptr<int> const>;
template <typename... Ts> void element_types() {
    using T = stdx::tuple<Ts...>;
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                using E = std::tuple_element_t<Is, std::tuple<Ts...>>;
                MC_CHECK((std::is_same_v<stdx::tuple_element_t<Is, T>, E>));
                MC_CHECK((std::is_same_v<std::tuple_element_t<Is, T>, E>));
                MC_CHECK((std::is_same_v<typename T::template element_t<Is>, E>));
                MC_CHECK((std::is_same_v<decltype(std::declval<T &>()[stdx::index<Is>]), E &>));
                MC_CHECK((std::is_same_v<decltype(std::declval<T const &>()[stdx::index<Is>]), E const &>));
                MC_CHECK((std::is_same_v<decltype(std::declval<T>()[stdx::index<Is>]), E &&>));
                mc::step(6);
            }(),
            ...);
    }(std::index_sequence_for<Ts...>{});
    mc::trace();
}
template <typename... Ks> void element_types_of(mc::list<Ks...>) {
    (element_types<Ks>(), ...);
    (element_types<Ks, char>(), ...);
    (element_types<char, Ks>(), ...);
    (element_types<char, Ks, double>(), ...);
    mc::state(mc::hash_of(sizeof...(Ks), 99));
    mc::state(mc::hash_of(sizeof...(Ks), 100));
}
MC_SECTION("element_types") { element_types_of(Kinds{}); }
MC_SECTION("folds") {
    folds<0>();
    folds<1>();
    folds<2>();
    folds<3>();
    folds<4>();
    folds<5>();
}
MC_SECTION("reference_elements") {
    int a = 1, b = 2, c = 3;
    stdx::tuple<int &, int const &, int> t{a, b, c};
    auto tl = t.tail();
    MC_CHECK(&tl[stdx::index<0>] == &b);
    static_assert(std::is_same_v<stdx::tuple_element_t<0, decltype(tl)>, int const &>);
    MC_EQ(t.fold_left(0, std::plus<>{}), 6);
    MC_EQ(t.fold_right(10, std::minus<>{}), 1 - (2 - (3 - 10)));
    a = 5;
    MC_EQ(t.join(std::plus<>{}), 10);
    stdx::for_each([](auto &x) { if constexpr (not std::is_const_v<std::remove_reference_t<decltype(x)>>) { x += 1; } }, t);
    MC_CHECK(a == 6 and b == 2 and c == 3 and stdx::get<2>(t) == 4);
    mc::step(5);
    mc::trace();
}
#endif
} // namespace
