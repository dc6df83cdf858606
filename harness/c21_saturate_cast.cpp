#include <stdx/numeric.hpp>

#include <mc.hpp>
namespace {
using i128 = __int128;
template <typename T> auto values() -> std::vector<T> {
    std::vector<T> r;
    for (auto u : mc::dense_or_all<std::make_unsigned_t<T>>()) {
        r.push_back(static_cast<T>(u));
    }
    return r;
}
template <typename To, typename From> auto model(From f) -> To {
    i128 v = f;
    i128 const lo = std::numeric_limits<To>::min(), hi = std::numeric_limits<To>::max();
    return static_cast<To>(v < lo ? lo : v > hi ? hi : v);
}
template <typename From, typename To> void one() {
    From f{};
    mc::Scope sc{[&] {
        return "saturate_cast<" + std::string{std::is_signed_v<To> ? "i" : "u"} + std::to_string(sizeof(To) * 8) + ">(" +
               (std::is_signed_v<From> ? "i" : "u") + std::to_string(sizeof(From) * 8) + " " + std::to_string(f) + ")";
    }};
    for (auto x : values<From>()) {
        f = x;
        auto const got = stdx::saturate_cast<To>(x);
        static_assert(std::is_same_v<decltype(got), To const>);
        MC_EQ(got, model<To>(x));
        mc::step();
        mc::state(mc::hash_of(sizeof(To), std::is_signed_v<To>, got));
    }
    mc::trace();
    // the same during constant evaluation, at the limits of either type
    constexpr auto edge = [](auto k) {
        using L = std::numeric_limits<From>;
        using M = std::numeric_limits<To>;
        switch (k()) {
        case 0: return L::min();
        case 1: return L::max();
        case 2: return static_cast<From>(M::max());
        case 3: return static_cast<From>(M::min());
        case 4: return From{0};
        default: return static_cast<From>(-1);
        }
    };
    auto ct = [&](auto k) {
        constexpr auto v = edge(k);
        constexpr auto got = stdx::saturate_cast<To>(v);
        f = v;
        MC_EQ(got, model<To>(v));
        mc::step();
    };
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (ct(std::integral_constant<int, Is>{}), ...);
    }(std::make_index_sequence<6>{});
}
template <typename From> void all_to() {
    one<From, std::int8_t>();
    one<From, std::uint8_t>();
    one<From, std::int16_t>();
    one<From, std::uint16_t>();
    one<From, std::int32_t>();
    one<From, std::uint32_t>();
    one<From, std::int64_t>();
    one<From, std::uint64_t>();
    one<From, char>();
    one<From, long long>();
    one<From, unsigned long long>();
}
#if MC_IN_PART(0)
MC_SECTION("from_i8") { all_to<std::int8_t>(); }
MC_SECTION("from_u8") { all_to<std::uint8_t>(); }
MC_SECTION("from_char") { all_to<char>(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("from_i16") { all_to<std::int16_t>(); }
MC_SECTION("from_u16") { all_to<std::uint16_t>(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("from_i32") { all_to<std::int32_t>(); }
MC_SECTION("from_u32") { all_to<std::uint32_t>(); }
MC_SECTION("from_long_long") { all_to<long long>(); }
#endif
#if MC_IN_PART(3)
MC_SECTION("from_i64") { all_to<std::int64_t>(); }
MC_SECTION("from_u64") { all_to<std::uint64_t>(); }
MC_SECTION("from_unsigned_long_long") { all_to<unsigned long long>(); }
#endif
} // namespace
