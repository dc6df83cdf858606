// What a value costs and how it may be handled: size, alignment, triviality and non-throwing operations of every value type
// of the library over every bounded choice of its template arguments.
#include <stdx/bitset.hpp>
#include <stdx/byterator.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/span.hpp>
#include <stdx/tuple.hpp>

#include <mc.hpp>
#include <array>
#include <cstdint>
#include <string>
#include <type_traits>
#include <utility>
namespace {
using std::size_t;
// what can be asked of a type: for each special operation possible / cannot throw / trivial
struct Facts {
    bool def, ndef, copy, ncopy, tcopy, move, nmove, tmove, cassign, ncassign, tcassign, massign, nmassign, tmassign, tdestroy;
    friend auto operator==(Facts const &, Facts const &) -> bool = default;
    friend auto operator&(Facts const &a, Facts const &b) -> Facts {
        return {a.def && b.def, a.ndef && b.ndef, a.copy && b.copy, a.ncopy && b.ncopy, a.tcopy && b.tcopy,
                a.move && b.move, a.nmove && b.nmove, a.tmove && b.tmove, a.cassign && b.cassign, a.ncassign && b.ncassign,
                a.tcassign && b.tcassign, a.massign && b.massign, a.nmassign && b.nmassign, a.tmassign && b.tmassign, a.tdestroy && b.tdestroy};
    }
    [[nodiscard]] auto text() const -> std::string {
        std::string s;
        auto add = [&](char const *n, bool b) { s += std::string{b ? " " : " not-"} + n; };
        add("default", def), add("nothrow-default", ndef), add("copy", copy), add("nothrow-copy", ncopy), add("trivial-copy", tcopy);
        add("move", move), add("nothrow-move", nmove), add("trivial-move", tmove), add("copy-assign", cassign), add("nothrow-copy-assign", ncassign);
        add("trivial-copy-assign", tcassign), add("move-assign", massign), add("nothrow-move-assign", nmassign), add("trivial-move-assign", tmassign), add("trivial-destroy", tdestroy);
        return s;
    }
};
template <typename T> auto facts() -> Facts {
    return {std::is_default_constructible_v<T>, std::is_nothrow_default_constructible_v<T>,
            std::is_copy_constructible_v<T>, std::is_nothrow_copy_constructible_v<T>, std::is_trivially_copy_constructible_v<T>,
            std::is_move_constructible_v<T>, std::is_nothrow_move_constructible_v<T>, std::is_trivially_move_constructible_v<T>,
            std::is_copy_assignable_v<T>, std::is_nothrow_copy_assignable_v<T>, std::is_trivially_copy_assignable_v<T>,
            std::is_move_assignable_v<T>, std::is_nothrow_move_assignable_v<T>, std::is_trivially_move_assignable_v<T>,
            std::is_trivially_destructible_v<T>};
}
void same(std::string const &what, Facts const &got, Facts const &want) {
    mc::Scope scp{[&] { return what + ":\n    is  " + got.text() + "\n    must be" + want.text(); }};
    MC_CHECK(got == want);
    mc::step();
    mc::trace();
    mc::state(mc::hash_str(what));
}
template <typename T> constexpr bool plain = std::is_trivially_copyable_v<T> and std::is_trivially_destructible_v<T> and std::is_nothrow_copy_constructible_v<T> and
                                             std::is_nothrow_move_constructible_v<T> and std::is_copy_assignable_v<T>;
template <typename T> void sized(std::string const &what, size_t size, size_t align, bool trivially_copied = true) {
    mc::Scope scp{[&] { return what; }};
    MC_EQ(sizeof(T), size);
    MC_EQ(alignof(T), align);
    MC_EQ(plain<T>, trivially_copied);
    mc::step(3);
    mc::trace();
    mc::state(mc::hash_str(what));
}
// element types
template <int> struct Nil {};
struct MoveOnly {
    MoveOnly() = default;
    MoveOnly(MoveOnly &&) = default;
    auto operator=(MoveOnly &&) -> MoveOnly & = default;
    int i{};
};
struct Heavy { // nothing is trivial, moves do not throw
    Heavy() noexcept : i{1} {}
    Heavy(Heavy const &o) : i{o.i} {}
    Heavy(Heavy &&o) noexcept : i{o.i} {}
    auto operator=(Heavy const &o) -> Heavy & {
        i = o.i;
        return *this;
    }
    auto operator=(Heavy &&o) noexcept -> Heavy & {
        i = o.i;
        return *this;
    }
    ~Heavy() { i = 0; }
    int i;
};
struct Wild { // everything may throw
    Wild() noexcept(false) {}
    Wild(Wild const &) noexcept(false) {}
    Wild(Wild &&) noexcept(false) {}
    auto operator=(Wild const &) noexcept(false) -> Wild & { return *this; }
    auto operator=(Wild &&) noexcept(false) -> Wild & { return *this; }
    char c{};
};
struct NoDefault {
    explicit NoDefault(int v) : i{v} {}
    int i;
};
struct NoAssign {
    int const i{3};
};
struct Pinned {
    Pinned() = default;
    Pinned(Pinned const &) = delete;
    auto operator=(Pinned const &) -> Pinned & = delete;
};
template <size_t I> struct letter;
template <> struct letter<0> { using type = int; };
template <> struct letter<1> { using type = char; };
template <> struct letter<2> { using type = MoveOnly; };
template <> struct letter<3> { using type = Heavy; };
template <> struct letter<4> { using type = Wild; };
template <> struct letter<5> { using type = NoDefault; };
template <> struct letter<6> { using type = NoAssign; };
template <> struct letter<7> { using type = Pinned; };
template <> struct letter<8> { using type = double; };
constexpr size_t letters = 9;
char const *names[] = {"int", "char", "MoveOnly", "Heavy", "Wild", "NoDefault", "NoAssign", "Pinned", "double"};
template <size_t I> using letter_t = typename letter<I>::type;
} // namespace

#if MC_IN_PART(0)
namespace {
template <size_t... Is> void tuple_facts() {
    std::string n = "tuple<";
    ((n += std::string{names[Is]} + ","), ...);
    Facts want = facts<int>();
    ((want = want & facts<letter_t<Is>>()), ...);
    same(n + ">", facts<stdx::tuple<letter_t<Is>...>>(), want);
}
} // namespace
MC_SECTION("tuple_operations") {
    same("tuple<>", facts<stdx::tuple<>>(), facts<int>());
    [&]<size_t... A>(std::index_sequence<A...>) {
        (tuple_facts<A>(), ...);
    }(std::make_index_sequence<letters>{});
    [&]<size_t... A>(std::index_sequence<A...>) { (tuple_facts<A / letters, A % letters>(), ...); }(std::make_index_sequence<letters * letters>{});
#ifndef MC_SMALL
    [&]<size_t... A>(std::index_sequence<A...>) {
        (tuple_facts<A / letters / letters, A / letters % letters, A % letters>(), ...);
    }(std::make_index_sequence<letters * letters * letters>{});
#endif
}
#endif
#if MC_IN_PART(1)
namespace {
// a struct with the same members in the same order; empty elements of different types take no room
template <typename...> struct members {};
template <typename T> struct members<T> { T t; };
template <typename T, typename U> struct members<T, U> { T t; U u; };
template <typename T, typename U, typename V> struct members<T, U, V> { T t; U u; V v; };
template <typename T, typename U, typename V, typename W> struct members<T, U, V, W> { T t; U u; V v; W w; };
template <size_t L, int P> using kind = std::conditional_t<L == 0, Nil<P>, std::conditional_t<L == 1, char, std::conditional_t<L == 2, int, double>>>;
template <typename L, typename... Ts> struct drop;
template <typename... Ks> struct drop<members<Ks...>> { using type = members<Ks...>; };
template <typename... Ks, typename T, typename... Ts>
struct drop<members<Ks...>, T, Ts...> : drop<std::conditional_t<std::is_empty_v<T>, members<Ks...>, members<Ks..., T>>, Ts...> {};
template <typename... Ts> void tuple_size_of(std::string const &what) {
    using M = typename drop<members<>, Ts...>::type;
    using T = stdx::tuple<Ts...>;
    sized<T>(what, sizeof(M), alignof(M));
    mc::Scope scp{[&] { return what; }};
    MC_EQ(std::is_empty_v<T>, std::is_empty_v<M>);
    MC_CHECK(std::is_aggregate_v<T>);
}
template <auto> struct as_argument {};
} // namespace
MC_SECTION("tuple_sizes") {
    sized<stdx::tuple<>>("tuple<>", 1, 1);
    MC_CHECK(std::is_empty_v<stdx::tuple<>>);
    [&]<size_t... C>(std::index_sequence<C...>) {
        (
            [&] {
                tuple_size_of<kind<C / 64, 0>, kind<C / 16 % 4, 1>, kind<C / 4 % 4, 2>, kind<C % 4, 3>>("tuple of four, code " + std::to_string(C));
                if constexpr (C < 64) { tuple_size_of<kind<C / 16 % 4, 0>, kind<C / 4 % 4, 1>, kind<C % 4, 2>>("tuple of three, code " + std::to_string(C)); }
                if constexpr (C < 16) { tuple_size_of<kind<C / 4, 0>, kind<C % 4, 1>>("tuple of two, code " + std::to_string(C)); }
                if constexpr (C < 4) { tuple_size_of<kind<C, 0>>("tuple of one, code " + std::to_string(C)); }
            }(),
            ...);
    }(std::make_index_sequence<256>{});
    // a tuple can be a template argument, and equal values name the same type
    using A = as_argument<stdx::tuple{1, 'a', stdx::tuple{2, Nil<0>{}}}>;
    MC_CHECK((std::is_same_v<A, as_argument<stdx::tuple{1, 'a', stdx::tuple{2, Nil<0>{}}}>>));
    MC_CHECK((not std::is_same_v<A, as_argument<stdx::tuple{1, 'a', stdx::tuple{3, Nil<0>{}}}>>));
    using S = as_argument<stdx::ct_string{"abc"}>;
    MC_CHECK((std::is_same_v<S, as_argument<stdx::ct_string{"abc"}>>));
    MC_CHECK((not std::is_same_v<S, as_argument<stdx::ct_string{"abd"}>>));
}
#endif
#if MC_IN_PART(2)
namespace {
#ifdef MC_SMALL
constexpr size_t widest = 34, most_types = 18;
#else
constexpr size_t widest = 200, most_types = 70;
#endif
template <typename E, size_t N> void bitset_size() {
    constexpr size_t w = sizeof(E) * 8;
    sized<stdx::bitset<N, E>>("bitset<" + std::to_string(N) + ", u" + std::to_string(w) + ">", (N + w - 1) / w * sizeof(E), alignof(E));
}
template <size_t N> void default_bitset() {
    using E = std::conditional_t<N <= 8, std::uint8_t, std::conditional_t<N <= 16, std::uint16_t, std::conditional_t<N <= 32, std::uint32_t, std::uint64_t>>>;
    constexpr size_t w = sizeof(E) * 8;
    sized<stdx::bitset<N>>("bitset<" + std::to_string(N) + ">", (N + w - 1) / w * sizeof(E), alignof(E));
}
template <size_t> struct Type {};
template <size_t... I> void type_bitset_size(std::index_sequence<I...>) {
    sized<stdx::type_bitset<Type<I>...>>("type_bitset of " + std::to_string(sizeof...(I)), sizeof(stdx::bitset<sizeof...(I)>), alignof(stdx::bitset<sizeof...(I)>));
}
} // namespace
MC_SECTION("bitset_sizes") {
    [&]<size_t... N>(std::index_sequence<N...>) {
        (default_bitset<N + 1>(), ...);
        (bitset_size<std::uint8_t, N + 1>(), ...);
        (bitset_size<std::uint16_t, N + 1>(), ...);
        (bitset_size<std::uint32_t, N + 1>(), ...);
        (bitset_size<std::uint64_t, N + 1>(), ...);
    }(std::make_index_sequence<widest>{});
    [&]<size_t... N>(std::index_sequence<N...>) { (type_bitset_size(std::make_index_sequence<N + 1>{}), ...); }(std::make_index_sequence<most_types>{});
}
#endif
#if MC_IN_PART(3)
namespace {
enum struct E8 : std::uint8_t { none = 0xff };
enum struct E64 : std::uint64_t { none = ~0ull };
struct Pair {
    int a{-1};
    char b{};
    friend auto operator==(Pair const &, Pair const &) -> bool = default;
};
struct Big {
    std::array<double, 5> d{};
    friend auto operator==(Big const &, Big const &) -> bool = default;
};
auto operator==(Heavy const &a, Heavy const &b) -> bool { return a.i == b.i; }
auto operator==(MoveOnly const &a, MoveOnly const &b) -> bool { return a.i == b.i; }
auto operator==(Wild const &a, Wild const &b) -> bool { return a.c == b.c; }
auto operator==(NoAssign const &a, NoAssign const &b) -> bool { return a.i == b.i; }
template <typename T> struct Tomb {
    constexpr auto operator()() const -> T { return T{}; }
};
template <typename T, typename TS> void optional_like(char const *name) {
    using O = stdx::optional<T, TS>;
    auto const what = "optional<" + std::string{name} + ">";
    mc::Scope scp{[&] { return what; }};
    MC_EQ(sizeof(O), sizeof(T));
    MC_EQ(alignof(O), alignof(T));
    auto f = facts<O>();
    auto w = facts<T>();
    w.def = true;                  // starts empty
    w.ndef = f.ndef;               // (making a tombstone may throw)
    same(what, f, w);
    MC_CHECK(noexcept(std::declval<O const &>().has_value()));
    MC_CHECK(noexcept(static_cast<bool>(std::declval<O const &>())));
}
template <typename T> void one_scalar(std::string const &n) {
    sized<stdx::rollover_t<T>>("rollover_t<" + n + ">", sizeof(T), alignof(T));
}
template <typename T, size_t N> void containers(std::string const &n) {
    auto const a = "<" + n + ", " + std::to_string(N) + ">";
    auto const check = [&]<typename C>(std::string const &what, std::type_identity<C>) {
        auto f = facts<C>();
        auto w = facts<T>();
        w.ndef = f.ndef;
        same(what + a, f, w);
    };
    check("cx_vector", std::type_identity<stdx::cx_vector<T, N>>{});
    check("cx_queue", std::type_identity<stdx::cx_queue<T, N>>{});
    check("cx_set", std::type_identity<stdx::cx_set<T, N>>{});
    check("cx_map to it", std::type_identity<stdx::cx_map<int, T, N>>{});
    check("cx_map from it", std::type_identity<stdx::cx_map<T, int, N>>{});
    check("cx_multimap to it", std::type_identity<stdx::cx_multimap<int, T, N, 2>>{});
}
template <typename T> void spans(std::string const &n) {
    sized<stdx::span<T>>("span<" + n + ">", 2 * sizeof(void *), alignof(void *));
    sized<stdx::span<T, 3>>("span<" + n + ", 3>", sizeof(void *), alignof(void *));
    using S = stdx::span<T, 3>;
    using D = stdx::span<T>;
    mc::Scope scp{[&] { return n; }};
    auto const quiet = []<typename X>(X const &s) {
        return noexcept(s.data()) and noexcept(s.begin()) and noexcept(s.end()) and noexcept(s.rbegin()) and noexcept(s.rend()) and noexcept(s.cbegin()) and
               noexcept(s.cend()) and noexcept(s.size()) and noexcept(s.size_bytes()) and noexcept(s.empty());
    };
    std::array<std::remove_const_t<T>, 3> a{};
    MC_CHECK(quiet(S{a}) and quiet(D{a}));
    MC_CHECK((std::is_nothrow_constructible_v<S, std::array<std::remove_const_t<T>, 3> &>));
}
} // namespace
template <> struct stdx::tombstone_traits<E8> : stdx::tombstone_value<E8::none> {};
template <> struct stdx::tombstone_traits<E64> : stdx::tombstone_value<E64::none> {};
MC_SECTION("optional_sizes") {
    optional_like<float, stdx::tombstone_traits<float>>("float");
    optional_like<double, stdx::tombstone_traits<double>>("double");
    optional_like<int *, stdx::tombstone_traits<int *>>("int *");
    optional_like<E8, stdx::tombstone_traits<E8>>("8-bit enum");
    optional_like<E64, stdx::tombstone_traits<E64>>("64-bit enum");
    optional_like<int, stdx::tombstone_value<-1>>("int, -1");
    optional_like<std::int8_t, stdx::tombstone_value<std::int8_t{-1}>>("int8_t, -1");
    optional_like<Pair, Tomb<Pair>>("Pair");
    optional_like<Big, Tomb<Big>>("Big");
    optional_like<Heavy, Tomb<Heavy>>("Heavy");
    optional_like<MoveOnly, Tomb<MoveOnly>>("MoveOnly");
    optional_like<Wild, Tomb<Wild>>("Wild");
    optional_like<NoAssign, Tomb<NoAssign>>("NoAssign");
}
MC_SECTION("other_sizes") {
    one_scalar<std::uint8_t>("u8");
    one_scalar<std::uint16_t>("u16");
    one_scalar<std::uint32_t>("u32");
    one_scalar<std::uint64_t>("u64");
    [&]<size_t... N>(std::index_sequence<N...>) {
        (containers<int, N + 1>("int"), ...);
        (containers<Pair, N + 1>("Pair"), ...);
        (containers<Heavy, N + 1>("Heavy"), ...);
        (containers<Wild, N + 1>("Wild"), ...);
        (containers<MoveOnly, N + 1>("MoveOnly"), ...);
        (containers<NoAssign, N + 1>("NoAssign"), ...);
    }(std::make_index_sequence<3>{});
    spans<int>("int");
    spans<int const>("int const");
    spans<char>("char");
    spans<Big>("Big");
    sized<stdx::byterator<int>>("byterator<int>", sizeof(void *), alignof(void *));
    sized<stdx::byterator<char const>>("byterator<char const>", sizeof(void *), alignof(void *));
    sized<stdx::counting_iterator<int>>("counting_iterator<int>", sizeof(int), alignof(int));
    sized<stdx::counting_iterator<std::uint8_t>>("counting_iterator<u8>", 1, 1);
    [&]<size_t... N>(std::index_sequence<N...>) { (sized<stdx::ct_string<N + 1>>("ct_string<" + std::to_string(N + 1) + ">", N + 1, 1), ...); }(std::make_index_sequence<20>{});
}
#endif
