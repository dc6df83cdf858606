// Every list of bounded length over a small alphabet: the utilities on packs, lists, sequences and value categories.
#include <stdx/array.hpp>
#include <stdx/priority.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>

#include <mc.hpp>
#include <array>
#include <climits>
#include <limits>
#include <memory>
#include <cstdint>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace {
using std::size_t;
constexpr auto power(int b, int n) -> int {
    int r = 1;
    while (n-- > 0) { r *= b; }
    return r;
}
auto digits(std::vector<int> const &v) -> std::string {
    std::string s;
    for (auto d : v) { s += std::to_string(d) + " "; }
    return s;
}
// calls f with every integer_sequence of length Len over 0..K-1
template <int K, int Len, typename F> void all_lists(F f) {
    [&]<int... Cs>(std::integer_sequence<int, Cs...>) {
        (
            [&]<int C, int... Is>(std::integral_constant<int, C>, std::integer_sequence<int, Is...>) {
                f(std::integer_sequence<int, (C / power(K, Is)) % K...>{});
            }(std::integral_constant<int, Cs>{}, std::make_integer_sequence<int, Len>{}),
            ...);
    }(std::make_integer_sequence<int, power(K, Len)>{});
}
template <typename...> struct own_list;
template <auto...> struct own_values;
template <int K> struct incomplete;
template <int K> struct el { using type = incomplete<K>; };
template <> struct el<1> { using type = int const &; };
template <> struct el<2> { using type = void; };
template <int K> using el_t = typename el<K>::type;
template <typename T> constexpr int id_of = -1;
template <> constexpr int id_of<incomplete<0>> = 0;
template <> constexpr int id_of<int const &> = 1;
template <> constexpr int id_of<void> = 2;
enum struct En { a, b };
// values of different types
template <int K> constexpr auto val() {
    if constexpr (K == 0) { return 7; }
    else if constexpr (K == 1) { return 'c'; }
    else { return En::b; }
}
template <auto V> constexpr int vid = std::is_same_v<decltype(V), int> ? 0 : std::is_same_v<decltype(V), char> ? 1 : std::is_same_v<decltype(V), En> ? 2 : -1;

void compare(std::vector<int> const &got, std::vector<int> const &w) {
    MC_EQ(digits(got), digits(w));
    mc::step();
    mc::state(mc::hash_str(digits(got)));
}
struct only_once { // not copyable, remembers the calls
    std::vector<int> *out;
    explicit only_once(std::vector<int> *o) : out{o} {}
    only_once(only_once const &) = delete;
    template <typename T> void operator()() const { out->push_back(id_of<T>); }
};
template <bool Numbers> struct remembers { // keeps what it has seen in itself
    std::vector<int> seen{};
    explicit remembers() = default;
    remembers(remembers const &) = delete;
    template <typename T> void operator()() { seen.push_back(id_of<T>); }
    template <auto V> void operator()() {
        if constexpr (not Numbers) {
            seen.push_back(vid<V>);
        } else {
            seen.push_back(static_cast<int>(V));
        }
    }
};
template <bool Numbers> struct remembers_all {
    std::vector<int> seen{};
    explicit remembers_all() = default;
    remembers_all(remembers_all const &) = delete;
    template <typename... Ts>
        requires(sizeof...(Ts) > 0)
    auto operator()() -> size_t {
        seen = {id_of<Ts>...};
        return sizeof...(Ts);
    }
    template <auto... Vs> auto operator()() -> size_t {
        seen = {[] {
            if constexpr (not Numbers) {
                return vid<Vs>;
            } else {
                return static_cast<int>(Vs);
            }
        }()...};
        return sizeof...(Vs);
    }
};
// the function itself is called, not a copy
template <typename L, bool Numbers = false> void own_state(std::vector<int> const &w) {
    remembers<Numbers> f;
    stdx::template_for_each<L>(f);
    compare(f.seen, w);
    remembers_all<Numbers> g;
    MC_EQ(stdx::apply_sequence<L>(g), w.size());
    compare(g.seen, w);
}

#if MC_IN_PART(0)
template <template <typename...> typename L, int... Ks> void type_list(std::vector<int> const &w) {
    std::vector<int> v;
    stdx::template_for_each<L<el_t<Ks>...>>([&]<typename T>() { v.push_back(id_of<T>); });
    compare(v, w);
    v.clear();
    only_once f{&v};
    stdx::template_for_each<L<el_t<Ks>...>>(f);
    compare(v, w);
    auto const r = stdx::apply_sequence<L<el_t<Ks>...>>([]<typename... Ts>() { return std::vector<int>{id_of<Ts>...}; });
    compare(r, w);
}
template <template <auto...> typename L, int... Ks> void value_list(std::vector<int> const &w) {
    std::vector<int> v;
    stdx::template_for_each<L<val<Ks>()...>>([&]<auto V>() { v.push_back(vid<V>); });
    compare(v, w);
    auto const r = stdx::apply_sequence<L<val<Ks>()...>>([]<auto... Vs>() { return std::vector<int>{vid<Vs>...}; });
    compare(r, w);
}
template <typename S> void sequence(std::vector<int> const &w) {
    std::vector<int> v;
    stdx::template_for_each<S>([&]<auto V>() {
        static_assert(std::is_same_v<decltype(V), typename S::value_type>);
        v.push_back(static_cast<int>(V));
    });
    compare(v, w);
    auto const r = stdx::apply_sequence<S>([]<auto... Vs>() { return std::vector<int>{static_cast<int>(Vs)...}; });
    compare(r, w);
}
template <int Len> void lists() {
    all_lists<3, Len>([]<int... Ks>(std::integer_sequence<int, Ks...>) {
        std::vector<int> const w{Ks...};
        mc::Scope scp{[&] { return "list " + digits(w); }};
        type_list<stdx::type_list, Ks...>(w);
        type_list<own_list, Ks...>(w);
        value_list<stdx::value_list, Ks...>(w);
        value_list<own_values, Ks...>(w);
        sequence<std::integer_sequence<int, Ks...>>(w);
        sequence<std::integer_sequence<unsigned char, Ks...>>(w);
        own_state<stdx::type_list<el_t<Ks>...>>(w);
        own_state<stdx::value_list<val<Ks>()...>>(w);
        own_state<std::integer_sequence<int, Ks...>, true>(w);
        mc::trace();
    });
}
MC_SECTION("lists") {
    lists<0>();
    lists<1>();
    lists<2>();
    lists<3>();
    lists<4>();
}
template <typename T, int... Ns> void counted(std::integer_sequence<int, Ns...>) {
    (
        [] {
            std::vector<int> w;
            for (int i{}; i < Ns; ++i) { w.push_back(i); }
            mc::Scope scp{[&] { return "sequence of " + std::to_string(Ns); }};
            sequence<std::make_integer_sequence<T, Ns>>(w);
            sequence<stdx::make_integer_sequence<T, Ns>>(w);
            own_state<std::make_integer_sequence<T, Ns>, true>(w);
            own_state<stdx::make_integer_sequence<T, Ns>, true>(w);
            mc::trace();
        }(),
        ...);
}
MC_SECTION("make_sequence_lists") {
    counted<size_t>(std::make_integer_sequence<int, 12>{});
    counted<int>(std::make_integer_sequence<int, 12>{});
    counted<unsigned char>(std::make_integer_sequence<int, 12>{});
    counted<long long>(std::make_integer_sequence<int, 12>{});
}
#endif
#if MC_IN_PART(1)
// nth_t and nth_v at every position of every list
template <int Len> void nths() {
    all_lists<3, Len>([]<int... Ks>(std::integer_sequence<int, Ks...>) {
        std::vector<int> const w{Ks...};
        mc::Scope scp{[&] { return "list " + digits(w); }};
        [&]<unsigned... Is>(std::integer_sequence<unsigned, Is...>) {
            compare({id_of<stdx::nth_t<Is, el_t<Ks>...>>...}, w);
            compare({vid<stdx::nth_v<Is, val<Ks>()...>>...}, w);
            MC_CHECK(((stdx::nth_v<Is, Ks...> == w.at(Is)) and ...));
        }(std::make_integer_sequence<unsigned, Len>{});
        mc::trace();
    });
}
MC_SECTION("nth") {
    nths<1>();
    nths<2>();
    nths<3>();
    nths<4>();
    // long lists, every position
    [&]<unsigned... Is>(std::integer_sequence<unsigned, Is...>) {
        (
            [&]<unsigned I>(std::integral_constant<unsigned, I>) {
                static_assert(std::is_same_v<stdx::nth_t<I, incomplete<static_cast<int>(Is)>...>, incomplete<static_cast<int>(I)>>);
                MC_EQ((stdx::nth_v<I, (3 * Is + 1)...>), 3 * I + 1);
                mc::step();
            }(std::integral_constant<unsigned, Is>{}),
            ...);
    }(std::make_integer_sequence<unsigned, 40>{});
}
// the tuple protocol of make_integer_sequence
template <typename T, int N> void protocol() {
    using S = stdx::make_integer_sequence<T, T{N}>;
    mc::Scope scp{[] { return "sequence of " + std::to_string(N); }};
    static_assert(std::is_base_of_v<std::make_integer_sequence<T, T{N}>, S>);
    MC_EQ(stdx::tuple_size_v<S>, size_t{N});
    MC_EQ(std::tuple_size<S>::value, size_t{N});
    MC_EQ(S::size(), size_t{N});
    MC_CHECK(stdx::has_tuple_protocol<S>);
    std::vector<int> seen, w;
    for (int i{}; i < N; ++i) { w.push_back(i); }
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&]<size_t I>(std::integral_constant<size_t, I>) {
                using R = std::integral_constant<T, T{I}>;
                static_assert(std::is_same_v<stdx::tuple_element_t<I, S>, R>);
                static_assert(std::is_same_v<typename std::tuple_element<I, S>::type, R>);
                static_assert(std::is_same_v<std::remove_cvref_t<decltype(get<I>(S{}))>, R>);
                seen.push_back(static_cast<int>(get<I>(S{})));
            }(std::integral_constant<size_t, Is>{}),
            ...);
    }(std::make_index_sequence<N>{});
    compare(seen, w);
    seen.clear();
    stdx::unrolled_for_each([&](auto c) { seen.push_back(static_cast<int>(decltype(c)::value)); }, S{});
    compare(seen, w);
    auto const sum = []<T... Is>(std::integer_sequence<T, Is...>) { return (0 + ... + static_cast<int>(Is)); }(S{});
    MC_EQ(sum, N * (N - 1) / 2);
    mc::trace();
}
template <typename T> void protocols() {
    [&]<int... Ns>(std::integer_sequence<int, Ns...>) { (protocol<T, Ns>(), ...); }(std::make_integer_sequence<int, 9>{});
}
MC_SECTION("sequence_protocol") {
    protocols<size_t>();
    protocols<int>();
    protocols<unsigned char>();
    protocols<signed char>();
    protocols<long long>();
    static_assert(std::is_same_v<stdx::make_index_sequence<5>, stdx::make_integer_sequence<size_t, 5>>);
    static_assert(std::is_same_v<stdx::index_sequence_for<int, void, char>, stdx::make_index_sequence<3>>);
    static_assert(std::is_same_v<stdx::index_sequence_for<>, stdx::make_index_sequence<0>>);
    auto [a, b, c] = stdx::make_index_sequence<3>{};
    static_assert(decltype(a)::value == 0 and decltype(b)::value == 1 and decltype(c)::value == 2);
    auto const [d, e] = stdx::make_integer_sequence<int, 2>{};
    static_assert(std::is_same_v<decltype(e), std::integral_constant<int, 1> const> or std::is_same_v<decltype(e), std::integral_constant<int, 1>>);
    MC_EQ(d + e + static_cast<int>(a + b + c), 4);
}
#endif
#if MC_IN_PART(2)
// conditional_t, type_or_t, is_specialization_of over all combinations
template <typename T> struct is_ref_or_void : std::bool_constant<std::is_reference_v<T> or std::is_void_v<T>> {};
MC_SECTION("choice") {
    all_lists<3, 2>([]<int A, int B>(std::integer_sequence<int, A, B>) {
        mc::Scope scp{[] { return "types " + std::to_string(A) + " " + std::to_string(B); }};
        using X = el_t<A>;
        using Y = el_t<B>;
        MC_EQ((id_of<stdx::conditional_t<true, X, Y>>), A);
        MC_EQ((id_of<stdx::conditional_t<false, X, Y>>), B);
        MC_EQ((id_of<stdx::type_or_t<is_ref_or_void, X, Y>>), (A == 0 ? B : A));
        MC_EQ((id_of<stdx::type_or_t<is_ref_or_void, X>>), (A == 0 ? 2 : A));
        static_assert(std::is_same_v<stdx::type_identity_t<X>, X> and std::is_same_v<typename stdx::type_identity<X>::type, X>);
        static_assert(std::is_same_v<std::remove_const_t<decltype(stdx::type_identity_v<X>)>, stdx::type_identity<X>>);
        MC_CHECK((not stdx::always_false_v<X, Y>));
        mc::step(4);
        mc::state(mc::hash_of(A, B));
        mc::trace();
    });
    MC_CHECK(not stdx::always_false_v<>);
}
template <typename...> struct T0 {};
template <typename...> struct T1 {};
template <typename, typename> struct T2 {};
template <auto...> struct V0 {};
template <auto...> struct V1 {};
template <auto> struct V2 {};
template <typename T, int Kind> void special() {
    auto const one = []<typename X>() {
        MC_EQ((stdx::is_specialization_of_v<X, T0>), (Kind == 0));
        MC_EQ((stdx::is_specialization_of_v<X, T1>), (Kind == 1));
        MC_EQ((stdx::is_specialization_of_v<X, T2>), (Kind == 2));
        MC_EQ((stdx::is_type_specialization_of_v<X, T0>), (Kind == 0));
        MC_EQ((stdx::is_type_specialization_of_v<X, T2>), (Kind == 2));
        MC_EQ((stdx::is_value_specialization_of_v<X, V0>), (Kind == 3));
        MC_EQ((stdx::is_value_specialization_of_v<X, V1>), (Kind == 4));
        MC_EQ((stdx::is_value_specialization_of_v<X, V2>), (Kind == 5));
        MC_EQ((bool{stdx::is_specialization_of<X, T0>()}), (Kind == 0));
        MC_EQ((bool{stdx::is_specialization_of<X, T2>()}), (Kind == 2));
        MC_EQ((bool{stdx::is_specialization_of<X, V0>()}), (Kind == 3));
        MC_EQ((bool{stdx::is_specialization_of<X, V2>()}), (Kind == 5));
        static_assert(std::is_same_v<decltype(stdx::is_specialization_of<X, T1>()), std::bool_constant<Kind == 1>>);
        static_assert(std::is_same_v<decltype(stdx::is_specialization_of<X, V1>()), std::bool_constant<Kind == 4>>);
        mc::step(14);
    };
    mc::Scope scp{[] { return "template " + std::to_string(Kind); }};
    one.template operator()<T>();
    one.template operator()<T &>();
    one.template operator()<T const>();
    one.template operator()<T const &>();
    mc::trace();
}
MC_SECTION("specialisations") {
    special<T0<>, 0>();
    special<T0<int>, 0>();
    special<T0<T1<int>, V0<1>>, 0>();
    special<T1<>, 1>();
    special<T1<T0<>>, 1>();
    special<T2<T0<>, T1<>>, 2>();
    special<V0<>, 3>();
    special<V0<1, 'c', En::a>, 3>();
    special<V1<1>, 4>();
    special<V2<1>, 5>();
    special<int, 6>();
    special<incomplete<0> *, 6>();
}
// value categories
struct X {};
template <int K, typename B> struct cat;
template <typename B> struct cat<0, B> { using type = B; };
template <typename B> struct cat<1, B> { using type = B const; };
template <typename B> struct cat<2, B> { using type = B &; };
template <typename B> struct cat<3, B> { using type = B const &; };
template <typename B> struct cat<4, B> { using type = B &&; };
template <typename B> struct cat<5, B> { using type = B const &&; };
MC_SECTION("forward_like") {
    auto const one = []<typename B>() {
        all_lists<6, 2>([]<int A, int C>(std::integer_sequence<int, A, C>) {
            mc::Scope scp{[] { return "categories " + std::to_string(A) + " " + std::to_string(C); }};
            using T = typename cat<A, X>::type;
            using U = typename cat<C, B>::type;
            constexpr bool is_const = A % 2 == 1 or C % 2 == 1;
            using V = std::conditional_t<is_const, B const, B>;
            using R = std::conditional_t<A == 2 or A == 3, V &, V &&>;
            MC_CHECK((std::is_same_v<stdx::forward_like_t<T, U>, R>));
            std::remove_const_t<B> obj{};
            auto &&r = stdx::forward_like<T>(static_cast<U &&>(obj));
            MC_CHECK((std::is_same_v<decltype(stdx::forward_like<T>(static_cast<U &&>(obj))), R>));
            MC_CHECK((static_cast<void const *>(&r) == static_cast<void const *>(&obj)));
            MC_CHECK(noexcept(stdx::forward_like<T>(static_cast<U &&>(obj))));
            mc::step(2);
            mc::state(mc::hash_of(A, C));
            mc::trace();
        });
    };
    one.template operator()<int>();
    one.template operator()<std::string>();
    one.template operator()<std::array<int, 2>>();
    one.template operator()<int[2]>();
    one.template operator()<std::string[2]>();
    one.template operator()<int *>();
    one.template operator()<int const *>();
    one.template operator()<int X::*>();
}
// signedness conversion: every value of the narrow types, dense boundaries of the wide ones
template <typename T> void signs(T v) {
    mc::Scope scp{[&] { return "value " + std::to_string(static_cast<long long>(v)) + " of " + std::to_string(sizeof(T)) + " bytes"; }};
    auto const u = stdx::as_unsigned(v);
    auto const s = stdx::as_signed(v);
    static_assert(sizeof u == sizeof v and sizeof s == sizeof v and std::is_unsigned_v<decltype(u)> and std::is_signed_v<decltype(s)>);
    static_assert(std::is_same_v<std::remove_const_t<decltype(u)>, std::make_unsigned_t<T>> and std::is_same_v<std::remove_const_t<decltype(s)>, std::make_signed_t<T>>);
    using W = std::uint64_t;
    constexpr W mask = sizeof(T) == 8 ? ~W{} : (W{1} << (8 * sizeof(T))) - 1;
    auto const bits = static_cast<W>(v) & mask;
    MC_EQ(static_cast<W>(u), bits);
    bool const neg = (bits >> (8 * sizeof(T) - 1)) != 0;
    MC_EQ(static_cast<std::int64_t>(s), static_cast<std::int64_t>(neg ? bits | ~mask : bits));
    mc::step(2);
}
template <typename T> void all_signs() {
    if constexpr (sizeof(T) <= 2) {
        for (long long v = std::numeric_limits<T>::min(); v <= static_cast<long long>(std::numeric_limits<T>::max()); ++v) { signs(static_cast<T>(v)); }
    } else {
        for (unsigned b{}; b < 8 * sizeof(T); ++b) {
            for (int d = -3; d <= 3; ++d) {
                signs(static_cast<T>((std::uint64_t{1} << b) + static_cast<std::uint64_t>(d)));
                signs(static_cast<T>(~((std::uint64_t{1} << b) + static_cast<std::uint64_t>(d))));
            }
        }
    }
    mc::state(mc::hash_of(sizeof(T), std::is_signed_v<T>));
    mc::trace();
}
MC_SECTION("signedness") {
    all_signs<signed char>();
    all_signs<unsigned char>();
    all_signs<char>();
    all_signs<char8_t>();
    all_signs<char16_t>();
    all_signs<short>();
    all_signs<unsigned short>();
    all_signs<int>();
    all_signs<unsigned>();
    all_signs<long>();
    all_signs<unsigned long>();
    all_signs<long long>();
    all_signs<unsigned long long>();
    all_signs<wchar_t>();
    all_signs<char32_t>();
}
template <typename U> void underlying() {
    enum struct E : U { lo = std::numeric_limits<U>::min(), hi = std::numeric_limits<U>::max() };
    enum F : U { fz };
    static_assert(std::is_same_v<stdx::underlying_type_t<E>, U> and std::is_same_v<stdx::underlying_type_t<F>, U> and std::is_same_v<stdx::underlying_type_t<U>, U>);
    static_assert(noexcept(stdx::to_underlying(E::lo)));
    auto const one = [](U v) {
        auto const e = stdx::to_underlying(static_cast<E>(v));
        static_assert(std::is_same_v<decltype(e), U const>);
        MC_EQ(e, v);
        MC_EQ(stdx::to_underlying(v), v);
        MC_EQ(stdx::to_underlying(static_cast<F>(v)), v);
        mc::step(3);
    };
    if constexpr (sizeof(U) <= 2 and not std::is_same_v<U, bool>) {
        for (long long v = std::numeric_limits<U>::min(); v <= static_cast<long long>(std::numeric_limits<U>::max()); ++v) { one(static_cast<U>(v)); }
    } else {
        one(std::numeric_limits<U>::min());
        one(U{});
        one(U{1});
        one(std::numeric_limits<U>::max());
    }
    mc::trace();
}
MC_SECTION("to_underlying") {
    underlying<signed char>();
    underlying<unsigned char>();
    underlying<char>();
    underlying<short>();
    underlying<unsigned short>();
    underlying<int>();
    underlying<unsigned>();
    underlying<long long>();
    underlying<unsigned long long>();
    underlying<bool>();
}
#endif
#if MC_IN_PART(3)
// arrays from lists
template <auto V> struct times3 { constexpr static auto value = 3 * static_cast<int>(V) + 1; };
template <int I> constexpr auto t3_of() -> int { return 3 * I + 1; }
template <int Len> void arrays() {
    all_lists<3, Len>([]<int... Ks>(std::integer_sequence<int, Ks...>) {
        std::vector<int> const w{Ks...};
        mc::Scope scp{[&] { return "list " + digits(w); }};
        auto const check = [&]<typename T, size_t N>(std::array<T, N> const &a, auto f) {
            MC_EQ(N, size_t{Len});
            for (size_t i{}; i < N; ++i) { MC_CHECK((a[i] == f(w[i]))); }
            mc::step();
        };
        auto const same = [](int x) { return x; };
        auto const t3 = [](int x) { return 3 * x + 1; };
        auto const a = stdx::make_array(Ks...);
        static_assert(std::is_same_v<decltype(a), std::array<int, Len> const>);
        check(a, same);
        auto const b = stdx::make_array<long>(Ks...);
        static_assert(std::is_same_v<decltype(b), std::array<long, Len> const>);
        check(b, same);
        // a type of their own, from mixed arguments
        auto const s = stdx::make_array<std::string>((Ks == 0 ? std::string{"0"} : std::to_string(Ks))...);
        check(s, [](int x) { return std::to_string(x); });
        if constexpr (Len > 0) {
            std::string const fixed{"x"};
            auto const m = stdx::make_array(fixed, "ab", std::to_string(Ks)...);
            static_assert(std::is_same_v<decltype(m), std::array<std::string, Len + 2> const>);
            MC_CHECK(m[0] == "x" and m[1] == "ab");
            for (size_t i{}; i < Len; ++i) { MC_CHECK((m[i + 2] == std::to_string(w[i]))); }
        }
        check(stdx::make_array<times3>(std::integer_sequence<int, Ks...>{}), t3);
        check(stdx::make_array(std::integer_sequence<int, Ks...>{}, []<int I>() { return t3_of<I>(); }), t3);
        mc::state(mc::hash_str(digits(w)));
        mc::trace();
    });
}
struct Labels { // gives its text away when called as an rvalue
    std::string text;
    template <int I> auto operator()() & -> std::string { return text + std::to_string(I); }
    template <int I> auto operator()() && -> std::string { return std::move(text) + std::to_string(I); }
};
template <int... Ns> void counted_arrays(std::integer_sequence<int, Ns...>) {
    (
        [] {
            mc::Scope scp{[&] { return "length " + std::to_string(Ns); }};
            constexpr auto a = stdx::make_array<times3, Ns>();
            static_assert(std::is_same_v<decltype(a), std::array<int, Ns> const>);
            std::vector<int> order;
            auto const b = stdx::make_array<Ns>([&]<int I>() {
                order.push_back(I);
                return 2 * I;
            });
            static_assert(std::is_same_v<decltype(b), std::array<int, Ns> const>);
            auto const c = stdx::make_array<size_t{Ns}>([]<size_t I>() { return std::to_string(I); });
            static_assert(std::is_same_v<decltype(c), std::array<std::string, Ns> const>);
            auto const d = stdx::make_array<Ns>(Labels{"a text too long to be stored in place: "});
            MC_EQ(order.size(), size_t{Ns});
            for (size_t i{}; i < Ns; ++i) {
                MC_EQ(d[i], "a text too long to be stored in place: " + std::to_string(i));
                MC_EQ(a[i], 3 * static_cast<int>(i) + 1);
                MC_EQ(b[i], 2 * static_cast<int>(i));
                MC_EQ(c[i], std::to_string(i));
                MC_EQ(order[i], static_cast<int>(i));
            }
            mc::step(4);
            mc::trace();
        }(),
        ...);
}
MC_SECTION("arrays") {
    arrays<0>();
    arrays<1>();
    arrays<2>();
    arrays<3>();
    arrays<4>();
    counted_arrays(std::make_integer_sequence<int, 12>{});
    // elements are forwarded, not copied
    auto p = std::make_unique<int>(5);
    auto const q = stdx::make_array<std::unique_ptr<int>>(std::move(p), std::make_unique<int>(6));
    MC_CHECK(p == nullptr and *q[0] == 5 and *q[1] == 6);
    auto const r = stdx::make_array(std::make_unique<int>(7));
    MC_EQ(*r[0], 7);
}
// every subset of function objects in an overload set, every argument
struct Tag {};
template <int K> struct F;
template <> struct F<0> { auto operator()(int) const -> int { return 0; } };
template <> struct F<1> { auto operator()(char const *) const -> int { return 1; } };
template <> struct F<2> { auto operator()(Tag const &) const -> int { return 2; } };
template <> struct F<3> { auto operator()(Tag, int) const -> int { return 3; } };
template <> struct F<4> { auto operator()(auto const &) const -> int { return 4; } };
template <int Mask, typename... As> void call(int exact, As const &...as) {
    auto const ov = []<int... Ks>(std::integer_sequence<int, Ks...>) {
        auto const pick = []<int K>() {
            if constexpr ((Mask >> K) & 1) { return stdx::overload{F<K>{}}; }
            else { return stdx::overload{[](Tag, Tag, Tag, std::integral_constant<int, K>) { return -1; }}; }
        };
        return stdx::overload{pick.template operator()<Ks>()...};
    }(std::make_integer_sequence<int, 5>{});
    bool const has = ((Mask >> exact) & 1) != 0;
    bool const any = sizeof...(As) == 1 and ((Mask >> 4) & 1) != 0;
    constexpr bool ok = requires { ov(as...); };
    MC_EQ(ok, has or any);
    if constexpr (ok) { MC_EQ(ov(as...), has ? exact : 4); }
    mc::step();
    mc::state(mc::hash_of(Mask, exact));
}
MC_SECTION("overload") {
    [&]<int... Ms>(std::integer_sequence<int, Ms...>) {
        (
            [&] {
                mc::Scope scp{[] { return "overload set " + std::to_string(Ms); }};
                char const *const str = "s";
                call<Ms>(0, 5);
                call<Ms>(1, str);
                call<Ms>(2, Tag{});
                call<Ms>(3, Tag{}, 3);
                mc::trace();
            }(),
            ...);
    }(std::make_integer_sequence<int, 32>{});
    int k{};
    stdx::overload ov{[&](int x) { k += x; }, [&](std::string const &s) { k += 100 * static_cast<int>(s.size()); }};
    std::variant<int, std::string> v{3};
    std::visit(ov, v);
    v = std::string{"ab"};
    std::visit(ov, v);
    MC_EQ(k, 203);
}
// priorities: every subset of overloads that are viable, called with every priority
template <int Mask, int K> concept viable = ((Mask >> K) & 1) != 0;
template <int Mask> struct choose {
    static auto f(stdx::priority_t<0>) -> int requires viable<Mask, 0> { return 0; }
    static auto f(stdx::priority_t<1>) -> int requires viable<Mask, 1> { return 1; }
    static auto f(stdx::priority_t<2>) -> int requires viable<Mask, 2> { return 2; }
    static auto f(stdx::priority_t<3>) -> int requires viable<Mask, 3> { return 3; }
};
template <int Mask, size_t N> void prio() {
    constexpr bool ok = requires { choose<Mask>::f(stdx::priority<N>); };
    int w = -1;
    for (int k{}; k <= static_cast<int>(N) and k < 4; ++k) {
        if ((Mask >> k) & 1) { w = k; }
    }
    mc::Scope scp{[] { return "viable " + std::to_string(Mask) + " priority " + std::to_string(N); }};
    MC_EQ(ok, w >= 0);
    if constexpr (ok) { MC_EQ(choose<Mask>::f(stdx::priority<N>), w); }
    static_assert(std::is_same_v<std::remove_const_t<decltype(stdx::priority<N>)>, stdx::priority_t<N>>);
    mc::step();
    mc::state(mc::hash_of(Mask, N));
}
MC_SECTION("priority") {
    [&]<int... Ms>(std::integer_sequence<int, Ms...>) {
        ((prio<Ms, 0>(), prio<Ms, 1>(), prio<Ms, 2>(), prio<Ms, 3>(), prio<Ms, 4>(), prio<Ms, 9>(), mc::trace()), ...);
    }(std::make_integer_sequence<int, 16>{});
}
#endif
} // namespace
