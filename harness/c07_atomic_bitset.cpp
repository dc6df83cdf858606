// atomic_bitset: all values x all bits and ranges of sizes up to 8, boundary values of larger ones, every construction form.
#include <conc/atomic.hpp>
#include <stdx/atomic_bitset.hpp>

#include <mc.hpp>
#include <bit>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace {
using std::size_t;
using u64 = std::uint64_t;
template <size_t N> constexpr u64 ones = N >= 64 ? ~u64{} : (u64{1} << N) - 1;
auto range_mask(unsigned l, unsigned m) -> u64 { return (m >= 63 ? ~u64{} : (u64{1} << (m + 1)) - 1) & ~((u64{1} << l) - 1); }

template <size_t N, typename E> struct Sys {
    using A = stdx::atomic_bitset<N, E>;
    using B = stdx::bitset<N, ::atomic::atomic_type_t<E>>;
    static auto raw(B const &b) -> u64 { return b.template to<u64>(); }
    // runs f on a fresh object with value v; the model value afterwards must be `after`
    template <typename F> static void on(u64 v, u64 after, char const *what, F f) {
        mc::Scope scp{[&] { return std::string{what} + " on " + std::to_string(v) + " size " + std::to_string(N) + " element bytes " + std::to_string(sizeof(E)); }};
        conc_shim::reset();
        A a{v};
        f(a);
        observe(a, after);
        mc::step();
        mc::state(mc::hash_of(N, v, after));
    }
    static void observe(A &a, u64 v) {
        A const &c = a;
        MC_EQ(c.template to<u64>(), v);
        MC_EQ(raw(c.load()), v);
    }
    static void observe_all(A &a, u64 v) {
        A const &c = a;
        observe(a, v);
        MC_EQ(static_cast<u64>(c.to_natural()), v);
        static_assert(std::is_same_v<decltype(c.to_natural()), E>);
        static_assert(std::is_same_v<decltype(c.load()), B>);
        B const conv = c;
        MC_EQ(raw(conv), v);
        MC_EQ(c.all(), v == ones<N>);
        MC_EQ(c.any(), v != 0);
        MC_EQ(c.none(), v == 0);
        MC_EQ(c.count(), static_cast<size_t>(std::popcount(v)));
        MC_EQ(c.load().count(), static_cast<size_t>(std::popcount(v)));
        for (size_t i{}; i < N; ++i) { MC_EQ(c[i], (v >> i & 1u) != 0); }
        MC_EQ(A::size(), N);
        enum struct En : u64 {};
        MC_EQ(static_cast<u64>(c.template to<En>()), v);
        if constexpr (N <= 16) { MC_EQ(static_cast<u64>(c.template to<std::uint16_t>()), v); }
    }
    static void value(u64 v) {
        on(v, v, "observe", [&](A &a) { observe_all(a, v); });
        on(v, ones<N>, "set()", [](A &a) { MC_CHECK(&a.set() == &a); });
        on(v, 0, "reset()", [](A &a) { MC_CHECK(&a.reset() == &a); });
        on(v, ~v & ones<N>, "flip()", [&](A &a) { MC_EQ(raw(a.flip()), v); });
        on(v, v, "flip() twice", [&](A &a) {
            MC_EQ(raw(a.flip()), v);
            MC_EQ(raw(a.flip()), ~v & ones<N>);
            observe_all(a, v);
        });
        for (unsigned i{}; i < N; ++i) {
            u64 const b = u64{1} << i;
            on(v, v | b, "set(bit)", [&](A &a) { MC_EQ(raw(a.set(i)), v); });
            on(v, v | b, "set(bit, true)", [&](A &a) { MC_EQ(raw(a.set(static_cast<int>(i), true)), v); });
            on(v, v & ~b, "set(bit, false)", [&](A &a) { MC_EQ(raw(a.set(i, false)), v); });
            on(v, v & ~b, "reset(bit)", [&](A &a) { MC_EQ(raw(a.reset(i)), v); });
            on(v, v ^ b, "flip(bit)", [&](A &a) { MC_EQ(raw(a.flip(i)), v); });
            on(v, v | b, "set(narrow index)", [&](A &a) {
                using Bit = unsigned char;
                MC_EQ(raw(a.set(static_cast<Bit>(i))), v);
                MC_CHECK(a[static_cast<Bit>(i)]);
                MC_EQ(raw(a.flip(static_cast<Bit>(i))), v | b);
                MC_EQ(raw(a.reset(static_cast<Bit>(i))), v & ~b);
                MC_EQ(raw(a.set(i)), v & ~b);
            });
            on(v, v, "operations on an empty range", [&](A &a) {
                auto const l = static_cast<stdx::lsb_t>(i);
                MC_EQ(raw(a.set(l, stdx::length_t{})), v);
                MC_EQ(raw(a.set(l, stdx::length_t{}, false)), v);
                MC_EQ(raw(a.reset(l, stdx::length_t{})), v);
                MC_EQ(raw(a.flip(l, stdx::length_t{})), v);
            });
            for (unsigned j{i}; j < N; ++j) {
                u64 const m = range_mask(i, j);
                auto const l = static_cast<stdx::lsb_t>(i);
                auto const h = static_cast<stdx::msb_t>(j);
                auto const n = static_cast<stdx::length_t>(j - i + 1);
                on(v, v | m, "set(lsb, msb)", [&](A &a) { MC_EQ(raw(a.set(l, h)), v); });
                on(v, v | m, "set(lsb, length)", [&](A &a) { MC_EQ(raw(a.set(l, n)), v); });
                on(v, v & ~m, "set(lsb, msb, false)", [&](A &a) { MC_EQ(raw(a.set(l, h, false)), v); });
                on(v, v & ~m, "set(lsb, length, false)", [&](A &a) { MC_EQ(raw(a.set(l, n, false)), v); });
                on(v, v & ~m, "reset(lsb, msb)", [&](A &a) { MC_EQ(raw(a.reset(l, h)), v); });
                on(v, v & ~m, "reset(lsb, length)", [&](A &a) { MC_EQ(raw(a.reset(l, n)), v); });
                on(v, v ^ m, "flip(lsb, msb)", [&](A &a) { MC_EQ(raw(a.flip(l, h)), v); });
                on(v, v ^ m, "flip(lsb, length)", [&](A &a) { MC_EQ(raw(a.flip(l, n)), v); });
            }
        }
        // store
        for (u64 s : {u64{}, ones<N>, ones<N> / 3, v, ~v & ones<N>}) {
            on(v, s, "store", [&](A &a) { a.store(B{s}); });
        }
        construct(v);
        mc::trace();
    }
    static void construct(u64 v) {
        mc::Scope scp{[&] { return "construct " + std::to_string(v) + " size " + std::to_string(N) + " element bytes " + std::to_string(sizeof(E)); }};
        auto const is = [](auto &&mk, u64 want) {
            conc_shim::reset();
            A a{mk()};
            observe_all(a, want);
            mc::step();
        };
        is([&] { return A{v}; }, v);
        is([&] { return A{v | ~ones<N>}; }, v); // bits beyond the size are ignored
        is([&] { return A{}; }, 0);
        is([&] { return A{stdx::all_bits}; }, ones<N>);
        is([&] { return A{stdx::place_bits}; }, 0);
        std::string s;
        for (size_t i = N; i-- > 0;) { s += (v >> i & 1u) != 0 ? '1' : '0'; }
        is([&] { return A{std::string_view{s}}; }, v);
        is([&] { return A{std::string_view{"1x0" + s}.substr(3)}; }, v);
        std::string const padded = "10" + s + "01";
        is([&] { return A{std::string_view{padded}, 2, N}; }, v);
        std::string const longer = s + "1101"; // only the first N characters count
        is([&] { return A{std::string_view{longer}}; }, v);
        for (size_t n{}; n <= N and n < 9; ++n) { // shorter ones fill the low bits
            u64 want{};
            for (size_t i{}; i < n; ++i) { want = want << 1 | (s[i] == '1' ? 1u : 0u); }
            is([&] { return A{std::string_view{s}, 0, n}; }, want);
            is([&] { return A{std::string_view{s}.substr(0, n)}; }, want);
        }
        std::string yn = s;
        for (auto &c : yn) { c = c == '1' ? 'y' : 'n'; }
        is([&] { return A{std::string_view{yn}, 0, std::string_view::npos, 'y'}; }, v);
    }
};
template <size_t N, typename E> void small() {
    for (u64 v{}; v <= ones<N>; ++v) { Sys<N, E>::value(v); }
    // every set of places
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        if constexpr (N >= 3) {
            using A = typename Sys<N, E>::A;
            for (unsigned i{}; i < N; ++i) {
                for (unsigned j{}; j < N; ++j) {
                    conc_shim::reset();
                    A a{stdx::place_bits, i, j, 0};
                    Sys<N, E>::observe_all(a, u64{1} << i | u64{1} << j | 1u);
                    mc::step();
                }
            }
        }
        conc_shim::reset();
        typename Sys<N, E>::A a{stdx::place_bits, Is...};
        Sys<N, E>::observe_all(a, ones<N>);
    }(std::make_index_sequence<N>{});
}
template <size_t N, typename E> void large() {
    std::vector<u64> vs{0, ones<N>, ones<N> / 3, ones<N> / 3 * 2, 1, u64{1} << (N - 1), ones<N> >> 1, 0x0123456789abcdefull & ones<N>};
    for (u64 v : vs) { Sys<N, E>::value(v); }
}
#if MC_IN_PART(0)
MC_SECTION("small8") {
    small<1, std::uint8_t>();
    small<2, std::uint8_t>();
    small<3, std::uint8_t>();
    small<4, std::uint8_t>();
    small<5, std::uint8_t>();
}
MC_SECTION("full8") {
    small<7, std::uint8_t>();
    small<8, std::uint8_t>();
}
#endif
#if MC_IN_PART(1)
MC_SECTION("small_in_wider") {
    small<1, std::uint16_t>();
    small<3, std::uint16_t>();
    small<4, std::uint32_t>();
    small<5, std::uint64_t>();
}
MC_SECTION("large16") {
    large<9, std::uint16_t>();
    large<15, std::uint16_t>();
    large<16, std::uint16_t>();
    large<16, std::uint64_t>();
}
#endif
#if MC_IN_PART(2)
MC_SECTION("large32") {
    large<17, std::uint32_t>();
    large<31, std::uint32_t>();
    large<32, std::uint32_t>();
    large<32, std::uint64_t>();
}
#endif
#if MC_IN_PART(3)
MC_SECTION("large64") {
    large<33, std::uint64_t>();
    large<63, std::uint64_t>();
    large<64, std::uint64_t>();
}
MC_SECTION("types") {
    enum struct Bits : std::uint8_t { zero, one, two, MAX };
    conc_shim::reset();
    stdx::atomic_bitset<Bits::MAX> a{stdx::place_bits, Bits::zero, Bits::two};
    MC_EQ(a.to<unsigned>(), 5u);
    MC_EQ(a.set(Bits::one).to<unsigned>(), 5u);
    MC_CHECK(a.all());
    MC_EQ(a.reset(Bits::zero).to<unsigned>(), 7u);
    MC_EQ(a.flip(Bits::two).to<unsigned>(), 6u);
    MC_CHECK(a[Bits::one] and not a[Bits::zero] and not a[Bits::two]);
    MC_EQ(a.set(Bits::one, false).to<unsigned>(), 2u);
    MC_CHECK(a.none());
    MC_EQ(a.size(), size_t{3});
    static_assert(std::is_same_v<decltype(stdx::atomic_bitset{stdx::ct_string{"01101"}}), stdx::atomic_bitset<size_t{5}>>);
    stdx::atomic_bitset b{stdx::ct_string{"01101"}};
    MC_EQ(b.to<unsigned>(), 0b01101u);
    MC_EQ(b.to_natural(), 0b01101);
    using namespace stdx::literals;
    MC_EQ(b.flip(1_lsb, 3_len).to<unsigned>(), 0b01101u);
    MC_EQ(b.to<unsigned>(), 0b00011u);
    // the storage is the smallest that fits, unless customised
    static_assert(std::is_same_v<decltype(stdx::atomic_bitset<9>{}.to_natural()), std::uint16_t> and std::is_same_v<decltype(stdx::atomic_bitset<8>{}.to_natural()), std::uint8_t>);
    static_assert(std::is_same_v<decltype(stdx::atomic_bitset<33>{}.to_natural()), std::uint64_t> and std::is_same_v<decltype(stdx::atomic_bitset<17>{}.to_natural()), std::uint32_t>);
    static_assert(sizeof(stdx::atomic_bitset<8>) == sizeof(::atomic::atomic_type_t<std::uint8_t>) and alignof(stdx::atomic_bitset<8>) == ::atomic::alignment_of<std::uint8_t>);
    mc::step(8);
    mc::trace();
}
#endif
} // namespace
