// Size conversions over all pairs of sizes 1..10 and 16; every short digit string in each base; all alignments.
#include <stdx/udls.hpp>
#include <stdx/utility.hpp>

#include <mc.hpp>
#include <array>
#include <limits>
#include <string>
#include <utility>
#include <vector>
namespace {
using std::size_t;
using namespace stdx::literals;
using u128 = unsigned __int128;
template <size_t N> struct Sz { unsigned char b[N]; };
[[maybe_unused]] auto counts() -> std::vector<size_t> const & {
    static auto const v = [] {
        std::vector<size_t> r;
        for (size_t i{}; i <= 260; ++i) { r.push_back(i); }
        for (size_t k = 9; k < 64; ++k) {
            for (int d = -3; d <= 3; ++d) { r.push_back((size_t{1} << k) + static_cast<size_t>(d)); }
        }
        for (size_t i{}; i < 20; ++i) { r.push_back(~size_t{} - i); }
        for (size_t i = 1; i < 17; ++i) {
            for (size_t d{}; d < 3; ++d) { r.push_back(~size_t{} / i - d); }
        }
        return r;
    }();
    return v;
}
void judge_size(size_t st, size_t su, size_t n, size_t got) {
    u128 const bytes = u128(n) * st;
    if (bytes > ~size_t{}) { return; } // more bytes than there can be
    mc::Scope scp{[&] { return std::to_string(n) + " things of size " + std::to_string(st) + " in things of size " + std::to_string(su); }};
    MC_CHECK(u128(got) * su >= bytes);
    MC_CHECK(got == 0 or (u128(got) - 1) * su < bytes);
    mc::step();
    mc::state(mc::hash_of(st, su, n));
}
template <typename T, typename U> void size_pair() {
    for (auto n : counts()) {
        if (u128(n) * sizeof(T) <= ~size_t{}) { judge_size(sizeof(T), sizeof(U), n, stdx::sized<T>{n}.template in<U>()); }
    }
    if constexpr (std::is_same_v<U, std::uint8_t>) {
        for (auto n : counts()) {
            if (u128(n) * sizeof(T) <= ~size_t{}) { MC_EQ(stdx::sized<T>{n}.in(), stdx::sized<T>{n}.template in<U>()); }
        }
    }
    mc::trace(counts().size());
}
template <typename T, typename... Us> void size_row() { (size_pair<T, Us>(), ...); }
template <typename... Ts> void size_table() { (size_row<Ts, Ts...>(), ...); }
#if MC_IN_PART(0)
MC_SECTION("sized") {
    size_table<std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t, std::int8_t, std::int16_t, std::int32_t, std::int64_t, Sz<3>, Sz<5>, Sz<6>, Sz<7>, Sz<9>, Sz<10>, Sz<16>, unsigned char[12]>();
    static_assert(std::is_same_v<stdx::sized8, stdx::sized<std::uint8_t>> and std::is_same_v<stdx::sized16, stdx::sized<std::uint16_t>>);
    static_assert(std::is_same_v<stdx::sized32, stdx::sized<std::uint32_t>> and std::is_same_v<stdx::sized64, stdx::sized<std::uint64_t>>);
    static_assert(stdx::sized<Sz<3>>{3}.in<Sz<2>>() == 5);
}
template <size_t A> struct alignas(A) Al {};
template <typename T, typename V> void aligned_value(V v) {
    auto const got = stdx::is_aligned_with<T>(v);
    auto const wide = static_cast<__int128>(v);
    mc::Scope scp{[&] { return "alignment " + std::to_string(alignof(T)) + " of " + std::to_string(+v); }};
    MC_EQ(got, wide % static_cast<__int128>(alignof(T)) == 0);
    mc::step();
    mc::state(mc::hash_of(alignof(T), static_cast<std::uint64_t>(v), sizeof(V)));
}
template <typename T, typename V> void aligned_values() {
    for (V v : mc::dense_or_all<V>()) { aligned_value<T>(v); }
    for (int i{}; i < 127; ++i) { aligned_value<T>(static_cast<V>(i)); }
}
template <typename T> void aligned() {
    aligned_values<T, std::int8_t>();
    aligned_values<T, std::uint8_t>();
    aligned_values<T, std::int16_t>();
    aligned_values<T, std::uint16_t>();
    aligned_values<T, std::int32_t>();
    aligned_values<T, std::uint32_t>();
    aligned_values<T, std::int64_t>();
    aligned_values<T, std::uint64_t>();
    alignas(65536) static std::array<char, 8192 + 65536> buf{};
    for (size_t i{}; i <= buf.size(); i += i <= 512 or i % 256 == 255 or i % 256 == 0 ? 1 : 254) {
        mc::Scope scp{[&] { return "alignment " + std::to_string(alignof(T)) + " of address 65536*k+" + std::to_string(i); }};
        bool const want = i % alignof(T) == 0;
        MC_EQ(stdx::is_aligned_with<T>(buf.data() + i), want);
        MC_EQ(stdx::is_aligned_with<T>(static_cast<void const *>(buf.data() + i)), want);
        MC_EQ(stdx::is_aligned_with<T>(reinterpret_cast<T *>(reinterpret_cast<std::uintptr_t>(buf.data()) + i)), want);
        mc::step(3);
    }
    MC_CHECK(stdx::is_aligned_with<T>(static_cast<T *>(nullptr)));
    mc::trace();
}
MC_SECTION("aligned") {
    aligned<char>();
    aligned<short>();
    aligned<int>();
    aligned<double>();
    aligned<Al<2>>();
    aligned<Al<16>>();
    aligned<Al<32>>();
    aligned<Al<64>>();
    aligned<Al<128>>();
    aligned<Al<256>>();
    aligned<Al<512>>();
    aligned<Al<4096>>();
    aligned<Al<65536>>();
    aligned<Sz<6>>();
    static_assert(stdx::is_aligned_with<int>(8) and not stdx::is_aligned_with<int>(9));
}
#endif

// ---- literals. A literal is given as the characters of its token.
auto value_of(std::string const &token) -> u128 {
    std::string s;
    for (auto c : token) {
        if (c != '\'') { s += c; }
    }
    unsigned base = 10;
    size_t i{};
    if (s.size() > 1 and s[0] == '0') {
        base = s[1] == 'x' or s[1] == 'X' ? 16 : s[1] == 'b' or s[1] == 'B' ? 2 : 8;
        i = base == 8 ? 1 : 2;
    }
    u128 v{};
    std::string const digits = "0123456789abcdef";
    for (; i < s.size(); ++i) { v = v * base + digits.find(static_cast<char>(std::tolower(s[i]))); }
    return v;
}
void judge_literal(std::string const &token, std::uint64_t got) {
    mc::Scope scp{[&] { return "literal " + token; }};
    MC_EQ(got, static_cast<std::uint64_t>(value_of(token)));
    mc::step();
    mc::state(mc::hash_str(token));
}
template <char... Cs> void literal() {
    constexpr auto c = stdx::literals::operator""_c<Cs...>();
    static_assert(std::is_same_v<decltype(c), std::integral_constant<std::uint32_t, c()> const>);
    judge_literal(std::string{Cs...}, c());
    mc::trace();
}
template <char... Cs> void size_literal() {
    std::string const token{Cs...};
    auto const n = static_cast<size_t>(value_of(token));
    [&]<typename... Us>(stdx::type_list<Us...>) {
        auto const one = [&]<typename T>(auto z, stdx::type_identity<T>) {
            (judge_size(sizeof(T), sizeof(Us), n, decltype(z)::template in<Us>), ...);
            judge_size(sizeof(T), 1, n, z->z8);
            judge_size(sizeof(T), 2, n, z->z16);
            judge_size(sizeof(T), 4, n, z->z32);
            judge_size(sizeof(T), 8, n, z->z64);
        };
        one(stdx::literals::operator""_z8<Cs...>(), stdx::type_identity<std::uint8_t>{});
        one(stdx::literals::operator""_z16<Cs...>(), stdx::type_identity<std::uint16_t>{});
        one(stdx::literals::operator""_z32<Cs...>(), stdx::type_identity<std::uint32_t>{});
        one(stdx::literals::operator""_z64<Cs...>(), stdx::type_identity<std::uint64_t>{});
    }(stdx::type_list<std::uint8_t, std::uint64_t, Sz<3>>{});
    mc::trace();
}
template <size_t B, size_t E, typename F> void range(F f) {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr ((B + Is) % MC_NPARTS == MC_PART) { f(std::integral_constant<size_t, B + Is>{}); }
            }(),
            ...);
    }(std::make_index_sequence<E - B>{});
}
constexpr char dig(size_t d) { return "0123456789abcdefABCDEF"[d]; }
MC_SECTION("decimal") {
    range<0, 10>([](auto i) { literal<dig(i)>(); });
    range<10, 100>([](auto i) { literal<dig(i / 10), dig(i % 10)>(); });
    range<10, 100>([](auto i) { literal<dig(i / 10), '\'', dig(i % 10)>(); });
    range<100, 1000>([](auto i) { literal<dig(i / 100), dig(i / 10 % 10), dig(i % 10)>(); });
    range<100, 140>([](auto i) { literal<dig(i / 100), '\'', dig(i / 10 % 10), dig(i % 10)>(); });
    range<100, 140>([](auto i) { literal<dig(i / 100), '\'', dig(i / 10 % 10), '\'', dig(i % 10)>(); });
}
MC_SECTION("octal") {
    range<0, 8>([](auto i) { literal<'0', dig(i)>(); });
    range<0, 8>([](auto i) { literal<'0', '\'', dig(i)>(); });
    range<0, 64>([](auto i) { literal<'0', dig(i / 8), dig(i % 8)>(); });
    range<0, 64>([](auto i) { literal<'0', dig(i / 8), '\'', dig(i % 8)>(); });
    range<0, 512>([](auto i) { literal<'0', dig(i / 64), dig(i / 8 % 8), dig(i % 8)>(); });
}
MC_SECTION("hexadecimal") {
    range<0, 22>([](auto i) { literal<'0', 'x', dig(i)>(); });
    range<0, 22>([](auto i) { literal<'0', 'X', dig(i)>(); });
    range<0, 484>([](auto i) { literal<'0', 'x', dig(i / 22), dig(i % 22)>(); });
    range<0, 484>([](auto i) { literal<'0', 'X', dig(i / 22), dig(i % 22)>(); });
    range<0, 484>([](auto i) { literal<'0', 'x', dig(i / 22), '\'', dig(i % 22)>(); });
}
MC_SECTION("binary") {
    range<0, 2>([](auto i) { literal<'0', 'b', dig(i)>(); });
    range<0, 4>([](auto i) { literal<'0', 'B', dig(i / 2), dig(i % 2)>(); });
    range<0, 8>([](auto i) { literal<'0', 'b', dig(i / 4), dig(i / 2 % 2), dig(i % 2)>(); });
    range<0, 64>([](auto i) { literal<'0', 'b', dig(i / 32), dig(i / 16 % 2), dig(i / 8 % 2), dig(i / 4 % 2), dig(i / 2 % 2), dig(i % 2)>(); });
    range<0, 64>([](auto i) { literal<'0', 'B', dig(i / 32), dig(i / 16 % 2), '\'', dig(i / 8 % 2), dig(i / 4 % 2), dig(i / 2 % 2), '\'', dig(i % 2)>(); });
}
MC_SECTION("size_literals") {
    range<0, 10>([](auto i) { size_literal<dig(i)>(); });
    range<10, 100>([](auto i) { size_literal<dig(i / 10), dig(i % 10)>(); });
    range<0, 484>([](auto i) {
        if constexpr (i % 7 == 0) { size_literal<'0', 'x', dig(i / 22), dig(i % 22)>(); }
    });
}
MC_SECTION("long_size_literals") {
#if MC_IN_PART(0)
    size_literal<'4', '2', '9', '4', '9', '6', '7', '2', '9', '5'>();
    size_literal<'4', '2', '9', '4', '9', '6', '7', '2', '9', '6'>();
#elif MC_IN_PART(1)
    size_literal<'5', '\'', '0', '0', '0', '\'', '0', '0', '0', '\'', '0', '0', '1'>();
#elif MC_IN_PART(2)
    size_literal<'0', 'x', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e'>();
    size_literal<'0', '7', '7', '7', '7', '7', '7', '7', '7', '7', '7', '7', '7', '7'>();
#endif
}
#if MC_IN_PART(1)
#define LIT(token) judge_literal(#token, token##_c())
#define LIT64(token) judge_literal(#token, (token##_z8)->z8)
MC_SECTION("big_literals") {
    LIT(4294967295);
    LIT(4'294'967'295);
    LIT(1234567890);
    LIT(2147483648);
    LIT(0xffffffff);
    LIT(0XFFFF'FFFF);
    LIT(0xDEADbeef);
    LIT(037777777777);
    LIT(020'000'000'000);
    LIT(0b11111111111111111111111111111111);
    LIT(0B1000'0000'0000'0000'0000'0000'0000'0001);
    LIT64(18446744073709551615);
    LIT64(4294967296);
    LIT64(12'345'678'901'234'567'890);
    LIT64(0xffff'ffff'ffff'ffff);
    LIT64(0x8000000000000000);
    LIT64(01777777777777777777777);
    LIT64(0b1000000000000000000000000000000000000000000000000000000000000000);
    static_assert(std::is_same_v<decltype(7_c), stdx::constant<std::uint32_t{7}>>);
    enum struct E { a, b = 77 };
    static_assert(stdx::_c<E::b> == E::b and std::is_same_v<std::remove_cvref_t<decltype(stdx::_c<E::b>)>, std::integral_constant<E, E::b>>);
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(stdx::_c<-5>)>, std::integral_constant<int, -5>>);
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(stdx::_c<'x'>)>, std::integral_constant<char, 'x'>>);
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(stdx::_c<false>)>, std::false_type>);
}
template <unsigned long long N> void scaled() {
    mc::Scope scp{[&] { return "scaled " + std::to_string(N); }};
    auto const one = [&](unsigned long long got, u128 scale) {
        if (u128(N) * scale <= ~0ull) { MC_EQ(got, N * static_cast<unsigned long long>(scale)); }
        mc::step();
    };
    one(stdx::literals::operator""_k(N), 1000);
    one(stdx::literals::operator""_M(N), 1000'000);
    one(stdx::literals::operator""_G(N), 1000'000'000);
    one(stdx::literals::operator""_ki(N), 1024);
    one(stdx::literals::operator""_Mi(N), 1024 * 1024);
    one(stdx::literals::operator""_Gi(N), 1024 * 1024 * 1024);
    if constexpr (N <= 0xffffffffull) {
        static_assert(std::is_same_v<decltype(stdx::literals::operator""_lsb(N)), stdx::lsb_t>);
        static_assert(std::is_same_v<decltype(stdx::literals::operator""_msb(N)), stdx::msb_t>);
        static_assert(std::is_same_v<decltype(stdx::literals::operator""_len(N)), stdx::length_t>);
        one(static_cast<unsigned long long>(stdx::literals::operator""_lsb(N)), 1);
        one(static_cast<unsigned long long>(stdx::literals::operator""_msb(N)), 1);
        one(static_cast<unsigned long long>(stdx::literals::operator""_len(N)), 1);
    }
    mc::trace();
}
MC_SECTION("scaled") {
    [&]<size_t... Is>(std::index_sequence<Is...>) { (scaled<Is>(), ...); }(std::make_index_sequence<130>{});
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (scaled<(1ull << Is)>(), ...);
        (scaled<(1ull << Is) - 1>(), ...);
        (scaled<(1ull << Is) + 1>(), ...);
        (scaled<~0ull / (Is + 1)>(), ...);
    }(std::make_index_sequence<64>{});
    static_assert(std::is_same_v<decltype(1_k), unsigned long long>);
}
MC_SECTION("names") {
    static_assert("x"_true and not "x"_false and "x"_b and ""_true and not ""_false and ""_b);
    static_assert(std::is_same_v<decltype("x"_true), bool> and std::is_same_v<decltype("x"_false), bool> and std::is_same_v<decltype("x"_b), bool>);
    size_t n{};
#define SMALL(k)                                                                                                                                                                                                                                               \
    MC_EQ(("idx"_##k)(), size_t{k});                                                                                                                                                                                                                           \
    static_assert(std::is_same_v<decltype("idx"_##k), std::integral_constant<size_t, k>>);                                                                                                                                                                     \
    ++n;
    SMALL(0) SMALL(1) SMALL(2) SMALL(3) SMALL(4) SMALL(5) SMALL(6) SMALL(7) SMALL(8) SMALL(9)
    mc::step(n);
}
#endif
} // namespace
