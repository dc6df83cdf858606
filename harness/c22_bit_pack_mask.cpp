// MC_FALLBACK: pretend the standard library provides none of <bit>, so that the library's own versions are used
#ifdef MC_FALLBACK
#include <algorithm>
#include <array>
#include <bit>
#include <version>
#undef __cpp_lib_endian
#undef __cpp_lib_bit_cast
#undef __cpp_lib_byteswap
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#define __cpp_lib_endian 0
#define __cpp_lib_bit_cast 0
#define __cpp_lib_byteswap 0
#define __cpp_lib_bitops 0
#define __cpp_lib_int_pow2 0
#endif
#include <stdx/bit.hpp>

#include <mc.hpp>
#include <cstring>
namespace {
using std::size_t;
using std::uint16_t;
using std::uint32_t;
using std::uint64_t;
using std::uint8_t;
template <typename T> constexpr int N = sizeof(T) * 8;

// ---- pack and unpack
template <typename From, typename To> constexpr auto part(From v, size_t i) -> To { // i counts from the most significant
    return static_cast<To>(v >> (N<From> - N<To> * static_cast<int>(i + 1)));
}
template <typename From, typename To> constexpr auto pack_ok(From v) -> bool {
    auto const a = stdx::bit_unpack<To>(v);
    static_assert(std::is_same_v<decltype(a), std::array<To, sizeof(From) / sizeof(To)> const>);
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] != part<From, To>(v, i)) {
            return false;
        }
    }
    if constexpr (sizeof(From) > sizeof(To)) {
        return [&]<size_t... Is>(std::index_sequence<Is...>) {
            auto const p = stdx::bit_pack<From>(a[Is]...);
            static_assert(std::is_same_v<decltype(p), From const>);
            return p == v and stdx::bit_pack<From>(part<From, To>(v, Is)...) == v;
        }(std::make_index_sequence<sizeof(From) / sizeof(To)>{});
    } else {
        return true;
    }
}
template <typename From, typename To> void pack() {
    From v{};
    mc::Scope sc{[&] { return std::to_string(N<From>) + " -> " + std::to_string(N<To>) + " bits, value " + std::to_string(v); }};
    for (auto x : mc::dense_or_all<From>()) {
        v = x;
        MC_CHECK((pack_ok<From, To>(x)));
        mc::step(2);
        mc::state(mc::hash_of(N<From>, N<To>, x));
    }
    mc::trace();
    constexpr auto ct = [] {
        From k = 1;
        for (int i = 0; i < 300; ++i) {
            k = static_cast<From>(1u * k * 6364136223846793005u + 1442695040888963407u);
            if (not pack_ok<From, To>(k)) {
                return false;
            }
        }
        return true;
    }();
    MC_CHECK(ct);
}
#if MC_IN_PART(0)
MC_SECTION("pack_16_8") { pack<uint16_t, uint8_t>(); }
MC_SECTION("pack_32_16") { pack<uint32_t, uint16_t>(); }
MC_SECTION("pack_32_8") { pack<uint32_t, uint8_t>(); }
MC_SECTION("pack_64_32") { pack<uint64_t, uint32_t>(); }
MC_SECTION("pack_64_16") { pack<uint64_t, uint16_t>(); }
MC_SECTION("pack_64_8") { pack<uint64_t, uint8_t>(); }
MC_SECTION("unpack_same") {
    pack<uint8_t, uint8_t>();
    pack<uint16_t, uint16_t>();
    pack<uint32_t, uint32_t>();
    pack<uint64_t, uint64_t>();
}
// each part takes every value while the others hold a pattern
MC_SECTION("pack_parts") {
    for (uint32_t b = 0; b < 256; ++b) {
        auto const x = static_cast<uint8_t>(b);
        for (int p = 0; p < 8; ++p) {
            for (uint64_t bg : {uint64_t{}, ~uint64_t{}, uint64_t{0x0123456789abcdef}}) {
                auto const v64 = (bg & ~(uint64_t{0xff} << (8 * p))) | (uint64_t{x} << (8 * p));
                MC_CHECK((pack_ok<uint64_t, uint8_t>(v64)) and (pack_ok<uint64_t, uint16_t>(v64)) and
                         (pack_ok<uint64_t, uint32_t>(v64)));
                auto const v32 = static_cast<uint32_t>(v64);
                MC_CHECK((pack_ok<uint32_t, uint8_t>(v32)) and (pack_ok<uint32_t, uint16_t>(v32)));
                mc::step(5);
            }
        }
    }
    mc::trace();
}
#endif

// ---- endian and sizes
template <typename T> void endian_all() {
    T v{};
    mc::Scope sc{[&] { return std::to_string(N<T>) + " bits, value " + std::to_string(v); }};
    for (auto x : mc::dense_or_all<T>()) {
        v = x;
        auto bytes = [](T t) {
            std::array<uint8_t, sizeof(T)> r{};
            std::memcpy(r.data(), &t, sizeof t);
            return r;
        };
        std::array<uint8_t, sizeof(T)> be{}, le{};
        for (size_t i = 0; i < sizeof(T); ++i) {
            le[i] = static_cast<uint8_t>(x >> (8 * i));
            be[sizeof(T) - 1 - i] = le[i];
        }
        MC_CHECK(bytes(stdx::to_be(x)) == be);
        MC_CHECK(bytes(stdx::to_le(x)) == le);
        T b{}, l{};
        std::memcpy(&b, be.data(), sizeof b);
        std::memcpy(&l, le.data(), sizeof l);
        MC_EQ(stdx::from_be(b), x);
        MC_EQ(stdx::from_le(l), x);
        static_assert(std::is_same_v<decltype(stdx::to_be(x)), T>);
        mc::step(4);
        mc::state(mc::hash_of(N<T>, x));
    }
    mc::trace();
}
template <size_t B> constexpr auto uint_width() -> size_t {
    return B <= 8 ? 8 : B <= 16 ? 16 : B <= 32 ? 32 : 64;
}
#if MC_IN_PART(1)
MC_SECTION("endian") {
    endian_all<uint8_t>();
    endian_all<uint16_t>();
    endian_all<uint32_t>();
    endian_all<uint64_t>();
    endian_all<unsigned long long>();
}
MC_SECTION("smallest_uint") {
    [&]<size_t... Bs>(std::index_sequence<Bs...>) {
        auto one = [&]<size_t B>() {
            using U = stdx::smallest_uint_t<B>;
            mc::Scope sc{[&] { return "smallest_uint<" + std::to_string(B) + ">"; }};
            MC_CHECK(std::is_unsigned_v<U>);
            MC_EQ(sizeof(U) * 8, uint_width<B>());
            MC_EQ(static_cast<size_t>(std::numeric_limits<U>::digits), uint_width<B>());
            MC_CHECK((std::is_same_v<U, decltype(stdx::smallest_uint<B>())>));
            MC_EQ(uint64_t{stdx::smallest_uint<B>()}, 0u);
            mc::step();
            mc::state(B);
        };
        (one.template operator()<Bs>(), ...);
    }(std::make_index_sequence<65>{});
    mc::trace();
}
struct S24 { uint8_t a[24]; };
struct S3 { uint8_t a[3]; };
MC_SECTION("bit_size") {
    MC_EQ(stdx::bit_size<uint8_t>(), 8u);
    MC_EQ(stdx::bit_size<uint16_t>(), 16u);
    MC_EQ(stdx::bit_size<uint32_t>(), 32u);
    MC_EQ(stdx::bit_size<uint64_t>(), 64u);
    MC_EQ(stdx::bit_size<std::int8_t>(), 8u);
    MC_EQ(stdx::bit_size<std::int64_t>(), 64u);
    MC_EQ(stdx::bit_size<bool>(), 8u);
    MC_EQ(stdx::bit_size<S3>(), 24u);
    MC_EQ(stdx::bit_size<S24>(), 192u);
    MC_EQ((stdx::bit_size<std::array<uint64_t, 600>>()), 600u * 64);
    MC_EQ((stdx::bit_size<std::array<uint64_t, 6000>>()), 6000u * 64);
    mc::step(11);
    mc::trace();
}
#endif

// ---- masks
template <typename T> struct bits_of : std::integral_constant<size_t, sizeof(T) * 8> {};
template <typename T> constexpr auto bit_at(T const &t, size_t i) -> bool {
    if constexpr (std::is_integral_v<T>) {
        return ((t >> i) & 1) != 0;
    } else {
        constexpr auto w = sizeof(t[0]) * 8;
        return bit_at(t[i / w], i % w);
    }
}
template <typename T> constexpr auto mask_ok(T const &m, size_t msb, size_t lsb) -> bool {
    for (size_t i = 0; i < sizeof(T) * 8; ++i) {
        if (bit_at(m, i) != (i >= lsb and i <= msb)) {
            return false;
        }
    }
    return true;
}
template <typename T> void mask_runtime() {
    size_t msb{}, lsb{};
    mc::Scope sc{[&] {
        return "bit_mask of " + std::to_string(sizeof(T) * 8) + " bits, msb=" + std::to_string(msb) + " lsb=" + std::to_string(lsb);
    }};
    for (msb = 0; msb < sizeof(T) * 8; ++msb) {
        for (lsb = 0; lsb <= msb; ++lsb) {
            auto const m = stdx::bit_mask<T>(msb, lsb);
            static_assert(std::is_same_v<decltype(m), T const>);
            MC_CHECK(mask_ok(m, msb, lsb));
            mc::step();
            mc::state(mc::hash_of(sizeof(T), msb, lsb));
        }
        lsb = 0;
        MC_CHECK(mask_ok(stdx::bit_mask<T>(msb), msb, 0));
        mc::step();
    }
    mc::trace();
}
template <typename T> void check_row(T const *row, size_t msb) {
    size_t lsb = 0;
    mc::Scope sc{[&] {
        return "bit_mask<" + std::to_string(sizeof(T) * 8) + " bits, " + std::to_string(msb) + ", " + std::to_string(lsb) + ">()";
    }};
    for (; lsb <= msb; ++lsb) {
        MC_CHECK(mask_ok(row[lsb], msb, lsb));
        mc::step();
    }
}
template <typename T, size_t Msb> void mask_ct_row() {
    []<size_t... Ls>(std::index_sequence<Ls...>) {
        constexpr static T row[] = {stdx::bit_mask<T, Msb, Ls>()...};
        check_row(row, Msb);
    }(std::make_index_sequence<Msb + 1>{});
    constexpr static auto from0 = stdx::bit_mask<T, Msb>();
    MC_CHECK(mask_ok(from0, Msb, 0));
    mc::step();
}
template <typename T, size_t... Ms> void mask_ct() {
    if constexpr (sizeof...(Ms) == 0) {
        [&]<size_t... Is>(std::index_sequence<Is...>) {
            (mask_ct_row<T, Is>(), ...);
        }(std::make_index_sequence<sizeof(T) * 8>{});
    } else {
        (mask_ct_row<T, Ms>(), ...);
    }
    MC_CHECK(mask_ok(stdx::bit_mask<T>(), sizeof(T) * 8 - 1, 0));
    mc::trace();
}
#if MC_IN_PART(1)
MC_SECTION("mask_runtime") {
    mask_runtime<uint8_t>();
    mask_runtime<uint16_t>();
    mask_runtime<uint32_t>();
    mask_runtime<uint64_t>();
    mask_runtime<unsigned long long>();
}
MC_SECTION("mask_runtime_arrays") {
    mask_runtime<std::array<uint8_t, 1>>();
    mask_runtime<std::array<uint8_t, 2>>();
    mask_runtime<std::array<uint8_t, 5>>();
    mask_runtime<std::array<uint8_t, 40>>(); // 320 bits: past what a byte counts
    mask_runtime<std::array<uint16_t, 3>>();
    mask_runtime<std::array<uint32_t, 3>>();
    mask_runtime<std::array<uint64_t, 1>>();
    mask_runtime<std::array<uint64_t, 3>>();
    mask_runtime<std::array<std::array<uint8_t, 2>, 2>>();
}
MC_SECTION("mask_compile_time_8_16") {
    mask_ct<uint8_t>();
    mask_ct<uint16_t>();
}
#endif
#if MC_IN_PART(2)
MC_SECTION("mask_compile_time_32_64") {
    mask_ct<uint32_t>();
    mask_ct<uint64_t>();
}
MC_SECTION("mask_compile_time_arrays") {
    mask_ct<std::array<uint8_t, 3>>();
    mask_ct<std::array<uint16_t, 2>>();
    mask_ct<std::array<uint64_t, 2>, 0, 63, 64, 126, 127>();
}
#endif

// ---- destructure
template <typename T> void check_fields(T (*fn)(T, T *), std::vector<size_t> const &offs) {
    T v{};
    mc::Scope sc{[&] {
        std::string s = "bit_destructure<";
        for (auto o : offs) {
            s += std::to_string(o) + ",";
        }
        return s + "> of " + std::to_string(N<T>) + "-bit " + std::to_string(v);
    }};
    static auto const values = sizeof(T) == 1 ? mc::dense_or_all<T>() : mc::dense<T>();
    for (auto x : values) {
        v = x;
        T f[64]{};
        fn(x, f);
        T back{};
        for (size_t i = 0; i <= offs.size(); ++i) {
            auto const lo = i == 0 ? 0 : offs[i - 1];
            auto const hi = i == offs.size() ? static_cast<size_t>(N<T>) : offs[i];
            T want{};
            for (auto b = lo; b < hi; ++b) {
                want = static_cast<T>(want | static_cast<T>(static_cast<T>((x >> b) & 1) << (b - lo)));
            }
            MC_EQ(f[i], want);
            back = static_cast<T>(back | static_cast<T>(f[i] << lo));
        }
        MC_EQ(back, x);
        mc::step();
    }
    mc::trace();
    mc::state(mc::hash_of(N<T>, offs.size(), offs.empty() ? 0u : offs.front(), offs.empty() ? 0u : offs.back()));
}
template <typename T, size_t... Offs> void destructure() {
    check_fields<T>(
        +[](T x, T *out) -> T {
            auto const f = stdx::bit_destructure<Offs...>(x);
            static_assert(std::is_same_v<decltype(f), std::array<T, sizeof...(Offs) + 1> const>);
            std::memcpy(out, &f, sizeof f);
            return f[0];
        },
        {Offs...});
}
template <typename T, unsigned Mask, size_t B = 1, size_t... Offs> void from_mask() { // bit k of Mask: offset k + 1
    if constexpr (B == N<T>) {
        destructure<T, Offs...>();
    } else if constexpr (((Mask >> (B - 1)) & 1) != 0) {
        from_mask<T, Mask, B + 1, Offs..., B>();
    } else {
        from_mask<T, Mask, B + 1, Offs...>();
    }
}
template <typename T, size_t Lo> void with_second() {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (destructure<T, Lo, Lo + 1 + Is>(), ...);
    }(std::make_index_sequence<static_cast<size_t>(N<T>) - 1 - Lo>{});
}
#if MC_IN_PART(3)
MC_SECTION("destructure_8") {
    [&]<unsigned... Ms>(std::integer_sequence<unsigned, Ms...>) {
        (from_mask<uint8_t, Ms>(), ...);
    }(std::make_integer_sequence<unsigned, 128>{});
    constexpr auto ct = stdx::bit_destructure<3, 5>(uint8_t{0b110'01'101});
    MC_CHECK((ct == std::array<uint8_t, 3>{0b101, 0b01, 0b110}));
}
#endif
#if MC_IN_PART(4)
MC_SECTION("destructure_16") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (destructure<uint16_t, Is + 1>(), ...);
        (with_second<uint16_t, Is + 1>(), ...);
    }(std::make_index_sequence<15>{});
    destructure<uint16_t>();
    destructure<uint16_t, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>();
    destructure<uint16_t, 4, 8, 12>();
}
#endif
#if MC_IN_PART(5)
MC_SECTION("destructure_32_64") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (destructure<uint32_t, Is + 1>(), ...);
    }(std::make_index_sequence<31>{});
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (destructure<uint64_t, Is + 1>(), ...);
    }(std::make_index_sequence<63>{});
    destructure<uint32_t>();
    destructure<uint64_t>();
    destructure<uint32_t, 8, 16, 24>();
    destructure<uint32_t, 1, 31>();
    destructure<uint32_t, 15, 16, 17>();
    destructure<uint64_t, 16, 32, 48>();
    destructure<uint64_t, 31, 32, 33>();
    destructure<uint64_t, 1, 63>();
    destructure<uint64_t, 8, 16, 24, 32, 40, 48, 56>();
}
#endif
} // namespace
