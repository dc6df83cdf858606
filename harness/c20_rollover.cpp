#include <stdx/rollover.hpp>

#include <mc.hpp>
namespace {
using u128 = unsigned __int128;
template <typename T> struct Roll {
    using R = stdx::rollover_t<T>;
    constexpr static int bits = sizeof(T) * 8;
    static auto mod(u128 x) -> T {
        return static_cast<T>(x & ((u128{1} << bits) - 1));
    }
    static auto val(R r) -> T {
        MC_EQ(static_cast<T>(r), r.as_underlying());
        return r.as_underlying();
    }
    static void unary(T a) {
        R const r{a};
        MC_EQ(val(r), a);
        MC_EQ(val(+r), a);
        MC_EQ(val(-r), mod((u128{1} << bits) - a));
        R x{a};
        auto *p = &++x;
        MC_CHECK(p == &x);
        MC_EQ(val(x), mod(u128{a} + 1));
        x = R{a};
        MC_EQ(val(x++), a);
        MC_EQ(val(x), mod(u128{a} + 1));
        x = R{a};
        p = &--x;
        MC_CHECK(p == &x);
        MC_EQ(val(x), mod(u128{a} + (u128{1} << bits) - 1));
        x = R{a};
        MC_EQ(val(x--), a);
        MC_EQ(val(x), mod(u128{a} + (u128{1} << bits) - 1));
        // conversions between widths and from signed values
        MC_EQ((stdx::rollover_t<std::uint8_t>{r}.as_underlying()), static_cast<std::uint8_t>(a));
        MC_EQ((stdx::rollover_t<std::uint16_t>{r}.as_underlying()), static_cast<std::uint16_t>(a));
        MC_EQ((stdx::rollover_t<std::uint32_t>{r}.as_underlying()), static_cast<std::uint32_t>(a));
        MC_EQ((stdx::rollover_t<std::uint64_t>{r}.as_underlying()), static_cast<std::uint64_t>(a));
        MC_EQ(val(R{static_cast<std::make_signed_t<T>>(a)}), a);
        MC_EQ(val(R{static_cast<long long>(static_cast<std::make_signed_t<T>>(a))}), a);
        MC_CHECK(r == r and not(r != r) and not cmp_less(r, r));
        mc::step(16);
    }
    static void binary(T a, T b) {
        R const x{a}, y{b};
        MC_EQ(val(x + y), mod(u128{a} + b));
        MC_EQ(val(x - y), mod(u128{a} + (u128{1} << bits) - b));
        MC_EQ(val(x * y), mod(u128{a} * b));
        R z = x;
        auto *p = &(z += y);
        MC_CHECK(p == &z);
        MC_EQ(val(z), mod(u128{a} + b));
        z = x;
        p = &(z -= y);
        MC_CHECK(p == &z);
        MC_EQ(val(z), mod(u128{a} + (u128{1} << bits) - b));
        z = x;
        p = &(z *= y);
        MC_CHECK(p == &z);
        MC_EQ(val(z), mod(u128{a} * b));
        if (b != 0) {
            MC_EQ(val(x / y), static_cast<T>(a / b));
            MC_EQ(val(x % y), static_cast<T>(a % b));
            z = x;
            p = &(z /= y);
            MC_CHECK(p == &z);
            MC_EQ(val(z), static_cast<T>(a / b));
            z = x;
            p = &(z %= y);
            MC_CHECK(p == &z);
            MC_EQ(val(z), static_cast<T>(a % b));
        }
        MC_EQ(x == y, a == b);
        MC_EQ(x != y, a != b);
        auto const forward = mod(u128{b} + (u128{1} << bits) - a);
        MC_EQ(cmp_less(x, y), forward >= 1 and u128{forward} <= (u128{1} << (bits - 1)));
        mc::step(14);
    }
    static void pairs(std::vector<T> const &vs) {
        T a{}, b{};
        mc::Scope sc{[&] {
            return "rollover_t<" + std::to_string(bits) + " bits> a=" + std::to_string(a) + " b=" + std::to_string(b);
        }};
        for (auto x : vs) {
            a = x;
            unary(a);
            mc::state(mc::hash_of(bits, a));
            for (auto y : vs) {
                b = y;
                binary(a, b);
            }
            mc::trace();
        }
    }
    static void all_unary() {
        T a{};
        mc::Scope sc{[&] { return "rollover_t<" + std::to_string(bits) + " bits> a=" + std::to_string(a); }};
        for (auto x : mc::dense_or_all<T>()) {
            a = x;
            unary(x);
            mc::state(mc::hash_of(bits, a));
            // every second operand at, and next to, the interesting distances from a
            for (auto const off : {u128{0}, u128{1}, (u128{1} << (bits - 1)) - 1, u128{1} << (bits - 1), (u128{1} << (bits - 1)) + 1, (u128{1} << bits) - 1}) {
                binary(a, mod(u128{a} + off));
                binary(mod(u128{a} + off), a);
            }
        }
        mc::trace();
    }
};
// default construction, deduction, common type
MC_SECTION("types") {
    MC_EQ(stdx::rollover_t<std::uint16_t>{}.as_underlying(), 0);
    auto const d = stdx::rollover_t{std::uint8_t{200}};
    static_assert(std::is_same_v<decltype(d), stdx::rollover_t<std::uint8_t> const>);
    static_assert(std::is_same_v<std::common_type_t<stdx::rollover_t<std::uint8_t>, stdx::rollover_t<std::uint32_t>>,
                                 stdx::rollover_t<std::uint32_t>>);
    constexpr auto ct = stdx::rollover_t<std::uint16_t>{0xffff} * stdx::rollover_t<std::uint16_t>{0xffff};
    static_assert(ct == stdx::rollover_t<std::uint16_t>{1});
    mc::step(4);
    mc::trace();
    mc::state(1);
    mc::state(2);
}
// the common type of two rollover types, or of a rollover type and an integer, is the rollover type of the common unsigned
// type (where there is one: the common type of two different narrow types is int)
template <typename A, typename B> void common() {
    using RA = stdx::rollover_t<A>;
    using W = std::common_type_t<A, B>;
    mc::Scope sc{[] { return "common type of rollover_t of " + std::to_string(sizeof(A)) + " bytes and one of " + std::to_string(sizeof(B)) + " bytes"; }};
    if constexpr (std::is_unsigned_v<W>) {
        using R = stdx::rollover_t<W>;
        MC_CHECK((std::is_same_v<std::common_type_t<RA, stdx::rollover_t<B>>, R>));
        MC_CHECK((std::is_same_v<std::common_type_t<RA, B>, R>));
        MC_CHECK((std::is_same_v<std::common_type_t<RA, std::make_signed_t<B>>, R>));
        mc::step(3);
        mc::trace();
    }
    mc::state(mc::hash_of(sizeof(A), sizeof(B)));
}
template <typename... Ts> void commons(mc::list<Ts...>) {
    auto const row = []<typename A>() { (common<A, Ts>(), ...); };
    (row.template operator()<Ts>(), ...);
}
#if MC_IN_PART(0)
MC_SECTION("common_types") { commons(mc::list<std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t>{}); }
#endif
template <typename T> auto every_nth(std::vector<T> v, std::size_t n) {
    std::vector<T> r;
    for (std::size_t i = 0; i < v.size(); i += n) {
        r.push_back(v[i]);
    }
    r.push_back(v.back());
    return r;
}
#if MC_IN_PART(0)
MC_SECTION("u8_all_pairs") { Roll<std::uint8_t>::pairs(mc::dense_or_all<std::uint8_t>()); }
MC_SECTION("u8_unary") { Roll<std::uint8_t>::all_unary(); }
MC_SECTION("u16_unary") { Roll<std::uint16_t>::all_unary(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("u16_pairs") { Roll<std::uint16_t>::pairs(mc::dense<std::uint16_t>()); }
MC_SECTION("u32_unary") { Roll<std::uint32_t>::all_unary(); }
MC_SECTION("u64_unary") { Roll<std::uint64_t>::all_unary(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("u32_pairs") { Roll<std::uint32_t>::pairs(every_nth(mc::dense<std::uint32_t>(), mc::thorough ? 1 : 2)); }
MC_SECTION("u64_pairs") { Roll<std::uint64_t>::pairs(every_nth(mc::dense<std::uint64_t>(), mc::thorough ? 1 : 4)); }
MC_SECTION("ulonglong_unary") { Roll<unsigned long long>::all_unary(); }
#endif
#if MC_TIER_THOROUGH
#define ALL16(K)                                                                                                       \
    MC_SECTION("u16_all_pairs_" #K) {                                                                                  \
        std::uint16_t a{}, b{};                                                                                        \
        mc::Scope sc{[&] { return "a=" + std::to_string(a) + " b=" + std::to_string(b); }};                            \
        for (std::uint32_t i = K; i < 65536; i += 8) {                                                                 \
            for (std::uint32_t j = 0; j < 65536; ++j) {                                                                \
                a = static_cast<std::uint16_t>(i);                                                                     \
                b = static_cast<std::uint16_t>(j);                                                                     \
                Roll<std::uint16_t>::binary(a, b);                                                                     \
            }                                                                                                          \
            mc::trace();                                                                                               \
            mc::state(i);                                                                                              \
        }                                                                                                              \
    }
#if MC_IN_PART(0)
ALL16(0) ALL16(1) ALL16(2) ALL16(3)
#endif
#if MC_IN_PART(1)
ALL16(4) ALL16(5) ALL16(6) ALL16(7)
#endif
#endif
} // namespace
