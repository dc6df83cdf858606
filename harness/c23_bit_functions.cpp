// MC_FALLBACK: pretend the standard library provides none of it, so that the library's own versions are used
#include <algorithm>
#include <array>
#include <bit>
#include <climits>
#include <cstring>
#include <iterator>
#include <version>
#ifdef MC_FALLBACK
#undef __cpp_lib_endian
#undef __cpp_lib_bit_cast
#undef __cpp_lib_byteswap
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#define __cpp_lib_endian 0
#define __cpp_lib_bit_cast 0
#define __cpp_lib_byteswap 0
#define __cpp_lib_bitops 0
#define __cpp_lib_int_pow2 0
#endif
#include <stdx/bit.hpp>

#include <mc.hpp>
namespace {
// reference versions, bit by bit
template <typename T> constexpr int N = sizeof(T) * 8;
template <typename T> constexpr auto bit(T x, int i) -> bool { return ((x >> i) & T{1}) != 0; }
template <typename T> constexpr auto ref_cl(T x, bool b) {
    int n = 0;
    while (n < N<T> and bit(x, N<T> - 1 - n) == b) {
        ++n;
    }
    return n;
}
template <typename T> constexpr auto ref_cr(T x, bool b) {
    int n = 0;
    while (n < N<T> and bit(x, n) == b) {
        ++n;
    }
    return n;
}
template <typename T> constexpr auto ref_pop(T x) {
    int n = 0;
    for (int i = 0; i < N<T>; ++i) {
        n += bit(x, i) ? 1 : 0;
    }
    return n;
}
template <typename T> constexpr auto ref_rotl(T x, long long s) -> T {
    T r{};
    auto const k = static_cast<int>(((s % N<T>)+N<T>) % N<T>);
    for (int i = 0; i < N<T>; ++i) {
        if (bit(x, i)) {
            r = static_cast<T>(r | static_cast<T>(T{1} << ((i + k) % N<T>)));
        }
    }
    return r;
}
template <typename T> constexpr auto ref_swap(T x) -> T {
    T r{};
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        r = static_cast<T>(static_cast<T>(r << (sizeof(T) > 1 ? 8 : 0)) | static_cast<T>((x >> (8 * i)) & 0xff));
    }
    return r;
}
template <typename T> constexpr auto top(T x) -> T { return static_cast<T>(T{1} << (N<T> - 1 - ref_cl(x, false))); }

template <typename T> constexpr auto value_ok(T x) -> int { // 0, or which function is wrong
    static_assert(std::is_same_v<decltype(stdx::countl_zero(x)), int> and std::is_same_v<decltype(stdx::popcount(x)), int> and
                  std::is_same_v<decltype(stdx::rotl(x, 1)), T> and std::is_same_v<decltype(stdx::bit_ceil(x)), T> and
                  std::is_same_v<decltype(stdx::byteswap(x)), T>);
    if (stdx::countl_zero(x) != ref_cl(x, false)) { return 1; }
    if (stdx::countl_one(x) != ref_cl(x, true)) { return 2; }
    if (stdx::countr_zero(x) != ref_cr(x, false)) { return 3; }
    if (stdx::countr_one(x) != ref_cr(x, true)) { return 4; }
    if (stdx::popcount(x) != ref_pop(x)) { return 5; }
    if (stdx::has_single_bit(x) != (ref_pop(x) == 1)) { return 6; }
    if (stdx::bit_width(x) != N<T> - ref_cl(x, false)) { return 7; }
    if (stdx::bit_floor(x) != (x == 0 ? T{0} : top(x))) { return 8; }
    if (x <= static_cast<T>(T{1} << (N<T> - 1))) { // otherwise not representable
        auto const want = x <= 1 ? T{1} : ref_pop(x) == 1 ? x : static_cast<T>(top(x) << 1);
        if (stdx::bit_ceil(x) != want) { return 9; }
    }
    if (stdx::byteswap(x) != ref_swap(x)) { return 10; }
    return 0;
}
constexpr char const *names[] = {"", "countl_zero", "countl_one", "countr_zero", "countr_one", "popcount",
                                 "has_single_bit", "bit_width", "bit_floor", "bit_ceil", "byteswap"};
template <typename T> void values() {
    T x{};
    mc::Scope sc{[&] { return std::to_string(N<T>) + " bits, x=" + std::to_string(x); }};
    for (auto v : mc::dense_or_all<T>()) {
        x = v;
        if (auto const e = value_ok(v); e != 0) {
            mc::fail(std::string{names[e]} + " is wrong");
        }
        mc::step(10);
        mc::state(mc::hash_of(N<T>, v));
        std::array<unsigned char, sizeof(T)> bytes{}, want{};
        std::memcpy(want.data(), &v, sizeof v);
        bytes = stdx::bit_cast<std::array<unsigned char, sizeof(T)>>(v);
        MC_CHECK(bytes == want);
        MC_EQ(stdx::bit_cast<T>(want), v);
        MC_EQ(stdx::bit_cast<T>(stdx::bit_cast<std::make_signed_t<T>>(v)), v);
    }
    mc::trace();
    // constant evaluation
    constexpr auto ct = [] {
        for (int i = 0; i < N<T>; ++i) {
            auto const hi = static_cast<T>(T{1} << i);
            for (auto d : {0, 1, -1}) {
                if (auto const e = value_ok(static_cast<T>(hi + static_cast<T>(d))); e != 0) {
                    return e;
                }
            }
            if (stdx::rotl(static_cast<T>(hi | T{1}), i) != ref_rotl(static_cast<T>(hi | T{1}), i) or
                stdx::rotr(static_cast<T>(hi | T{1}), i) != ref_rotl(static_cast<T>(hi | T{1}), -i)) {
                return 11;
            }
        }
        return 0;
    }();
    MC_EQ(ct, 0);
}
template <typename T> void rotations() {
    T x{};
    int s{};
    mc::Scope sc{[&] { return std::to_string(N<T>) + " bits, x=" + std::to_string(x) + " s=" + std::to_string(s); }};
    std::vector<int> by;
    for (int i = -2 * N<T> - 1; i <= 2 * N<T> + 1; ++i) {
        by.push_back(i);
    }
    for (int i : {255, 256, 257, 300, 1000, 65536, 65537, INT_MAX, INT_MAX - 1, -255, -256, -257, -1000, -65536, -INT_MAX, INT_MIN}) {
        by.push_back(i);
    }
    for (auto v : mc::dense<T>()) {
        x = v;
        for (auto k : by) {
            s = k;
            MC_EQ(stdx::rotl(v, k), ref_rotl(v, k));
            MC_EQ(stdx::rotr(v, k), ref_rotl(v, -static_cast<long long>(k)));
            mc::step(2);
        }
    }
    mc::trace();
}
MC_SECTION("values_u8") { values<std::uint8_t>(); }
MC_SECTION("values_u16") { values<std::uint16_t>(); }
MC_SECTION("values_u32") { values<std::uint32_t>(); }
MC_SECTION("values_u64") { values<std::uint64_t>(); }
MC_SECTION("values_ull") { values<unsigned long long>(); }
MC_SECTION("rotations_u8") { rotations<std::uint8_t>(); }
MC_SECTION("rotations_u16") { rotations<std::uint16_t>(); }
MC_SECTION("rotations_u32") { rotations<std::uint32_t>(); }
MC_SECTION("rotations_u64") { rotations<std::uint64_t>(); }
MC_SECTION("rotations_ull") { rotations<unsigned long long>(); }
MC_SECTION("bit_cast") {
    struct Pod {
        std::uint16_t a;
        std::uint8_t b[2];
    };
    for (auto v : mc::dense<std::uint32_t>()) {
        auto p = stdx::bit_cast<Pod>(v);
        MC_CHECK(std::memcmp(&p, &v, 4) == 0);
        MC_EQ(stdx::bit_cast<std::uint32_t>(p), v);
        auto const f = stdx::bit_cast<float>(v);
        MC_CHECK(std::memcmp(&f, &v, 4) == 0);
        mc::step(3);
        mc::state(v);
    }
    MC_CHECK(stdx::endian::native == stdx::endian::little);
    MC_CHECK(stdx::endian::big != stdx::endian::little);
    static_assert(static_cast<int>(stdx::endian::native) == static_cast<int>(std::endian::native));
    mc::trace();
}
} // namespace
