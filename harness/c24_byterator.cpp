#include <stdx/byterator.hpp>

#include <mc.hpp>
#include <cstring>
namespace {
using std::uint16_t;
using std::uint32_t;
using std::uint64_t;
using std::uint8_t;
using diff = std::ptrdiff_t;
struct S4 { // size 4, alignment 2
    uint8_t a;
    uint16_t b;
};
struct S3 { // size 3, alignment 1
    uint8_t a[3];
};
struct S12 { // size 12, alignment 4
    uint32_t a[3];
};
struct S16 { // size 16, alignment 8
    uint64_t a;
    uint8_t b;
};
struct alignas(16) A16 {
    uint8_t b[16];
};
enum struct E16 : uint16_t {};
enum struct E8 : uint8_t {};

constexpr diff BYTES = 48;
template <typename T> struct Buf {
    alignas(16) std::array<T, BYTES / sizeof(T)> elems{};
    auto raw() -> uint8_t * { return reinterpret_cast<uint8_t *>(elems.data()); }
    void fill() {
        for (diff i = 0; i < BYTES; ++i) {
            raw()[i] = static_cast<uint8_t>(i * 37 + 11);
        }
    }
    Buf() { fill(); }
};

template <typename T, bool Const> void walk() {
    Buf<T> buf;
    using B = stdx::byterator<std::conditional_t<Const, T const, T>>;
    auto make = [&] {
        if constexpr (Const) {
            return stdx::byterator{std::as_const(buf.elems).begin()};
        } else {
            return stdx::byterator{buf.elems.begin()};
        }
    };
    static_assert(std::is_same_v<decltype(make()), B>);
    static_assert(std::is_same_v<typename std::iterator_traits<B>::iterator_category, std::random_access_iterator_tag>);
    static_assert(std::is_same_v<typename std::iterator_traits<B>::value_type, std::byte> and
                  std::is_same_v<typename std::iterator_traits<B>::difference_type, diff>);
    auto const base = make();
    auto addr = [&](B const &b) { return reinterpret_cast<uint8_t const *>(b.operator->()) - buf.raw(); };
    diff p{}, d{};
    mc::Scope sc{[&] { return "byterator over elements of size " + std::to_string(sizeof(T)) + " at byte " + std::to_string(p) + ", d=" + std::to_string(d); }};
    for (p = 0; p <= BYTES; ++p) {
        auto const at = base + p;
        MC_EQ(addr(at), p);
        mc::state(mc::hash_of(sizeof(T), Const, p));
        if (p < BYTES) {
            MC_CHECK(&*at == at.operator->());
            MC_EQ(std::to_integer<int>(*at), int{buf.raw()[p]});
            B b = at;
            auto *q = &++b;
            MC_CHECK(q == &b);
            MC_EQ(addr(b), p + 1);
            b = at;
            auto const old = b++;
            MC_EQ(addr(old), p);
            MC_EQ(addr(b), p + 1);
            mc::step(3);
        }
        if (p > 0) {
            B b = at;
            auto *q = &--b;
            MC_CHECK(q == &b);
            MC_EQ(addr(b), p - 1);
            b = at;
            auto const old = b--;
            MC_EQ(addr(old), p);
            MC_EQ(addr(b), p - 1);
            mc::step(2);
        }
        for (diff t = 0; t <= BYTES; ++t) {
            d = t - p;
            B b = at;
            auto *q = &(b += d);
            MC_CHECK(q == &b);
            MC_EQ(addr(b), t);
            b = at;
            q = &(b -= -d);
            MC_CHECK(q == &b);
            MC_EQ(addr(b), t);
            b = at;
            q = &b.advance(d);
            MC_CHECK(q == &b);
            MC_EQ(addr(b), t);
            MC_EQ(addr(at + d), t);
            MC_EQ(addr(d + at), t);
            MC_EQ(addr(at - (-d)), t);
            MC_EQ(b - at, d);
            MC_EQ(at - b, -d);
            MC_EQ(std::distance(at, b), d);
            MC_EQ(addr(std::next(at, d)), t);
            if (t < BYTES) {
                B m = at;
                MC_EQ(reinterpret_cast<uint8_t const *>(&m[d]) - buf.raw(), t);
                MC_EQ(reinterpret_cast<uint8_t const *>(&at[d]) - buf.raw(), t);
            }
            MC_EQ(at == b, p == t);
            MC_EQ(at != b, p != t);
            MC_EQ(at < b, p < t);
            MC_EQ(at <= b, p <= t);
            MC_EQ(at > b, p > t);
            MC_EQ(at >= b, p >= t);
            MC_CHECK((at <=> b) == (p <=> t));
            mc::step(18);
        }
        d = 0;
        // against iterators of the range
        for (std::size_t e = 0; e <= buf.elems.size(); ++e) {
            auto const t = static_cast<diff>(e * sizeof(T));
            auto const cmp = [&](auto const &it) {
                MC_EQ(at == it, p == t);
                MC_EQ(at != it, p != t);
                MC_EQ(it == at, p == t);
                MC_EQ(it != at, p != t);
                MC_EQ(at < it, p < t);
                MC_EQ(at <= it, p <= t);
                MC_EQ(at > it, p > t);
                MC_EQ(at >= it, p >= t);
                MC_EQ(it < at, t < p);
                MC_EQ(it <= at, t <= p);
                MC_EQ(it > at, t > p);
                MC_EQ(it >= at, t >= p);
                mc::step(12);
            };
            if constexpr (Const) {
                cmp(std::as_const(buf.elems).begin() + e);
            } else {
                cmp(buf.elems.begin() + e);
            }
        }
        if constexpr (not Const) {
            if (p < BYTES) {
                B b = at;
                *b = std::byte{0xEE};
                for (diff i = 0; i < BYTES; ++i) {
                    MC_EQ(int{buf.raw()[i]}, i == p ? 0xEE : static_cast<int>(static_cast<uint8_t>(i * 37 + 11)));
                }
                b[0] = std::byte{0x11};
                MC_EQ(int{buf.raw()[p]}, 0x11);
                buf.fill();
                mc::step(2);
            }
        }
        mc::trace();
    }
}

template <typename V> auto bytes_of(V const &v) {
    std::array<uint8_t, sizeof(V)> r{};
    std::memcpy(r.data(), &v, sizeof v);
    return r;
}
template <typename V, typename B, typename Raw> void generic_at(B const &at, Raw raw, diff p) {
    if (p + static_cast<diff>(sizeof(V)) > BYTES) {
        return;
    }
    V want{};
    std::memcpy(&want, raw + p, sizeof want);
    B b = at;
    MC_CHECK(bytes_of(b.template peek<V>()) == bytes_of(want));
    MC_CHECK(b == at);
    MC_CHECK(bytes_of(b.template read<V>()) == bytes_of(want));
    MC_EQ(b - at, static_cast<diff>(sizeof(V)));
    b = at;
    auto *q = &b.template advance<V>();
    MC_CHECK(q == &b);
    MC_EQ(b - at, static_cast<diff>(sizeof(V)));
    mc::step(3);
}
template <typename V, typename R, typename B> void convert_at(B const &at, V want) {
    B b = at;
    MC_CHECK((b.template peek<V, R>() == static_cast<R>(want)));
    MC_CHECK(b == at);
    static_assert(std::is_same_v<decltype(b.template read<V, R>()), R>);
    MC_CHECK((b.template read<V, R>() == static_cast<R>(want)));
    MC_EQ(b - at, static_cast<diff>(sizeof(V)));
    mc::step(2);
}
#define FIXED(W)                                                                                                       \
    if (p + W / 8 <= BYTES) {                                                                                          \
        uint##W##_t want{};                                                                                            \
        std::memcpy(&want, raw + p, sizeof want);                                                                      \
        B b = at;                                                                                                      \
        static_assert(std::is_same_v<decltype(b.peeku##W()), uint##W##_t>);                                            \
        MC_EQ(b.peeku##W(), want);                                                                                     \
        MC_CHECK(b == at);                                                                                             \
        MC_EQ(b.readu##W(), want);                                                                                     \
        MC_EQ(b - at, diff{W / 8});                                                                                    \
        b = at;                                                                                                        \
        auto *q = &b.advanceu##W();                                                                                    \
        MC_CHECK(q == &b);                                                                                             \
        MC_EQ(b - at, diff{W / 8});                                                                                    \
        b = at;                                                                                                        \
        static_assert(std::is_same_v<decltype(b.template peeku##W<uint64_t>()), uint64_t>);                            \
        MC_EQ(b.template peeku##W<uint64_t>(), static_cast<uint64_t>(want));                                           \
        MC_EQ(b.template peeku##W<uint8_t>(), static_cast<uint8_t>(want));                                             \
        MC_EQ(b.template peeku##W<std::int8_t>(), static_cast<std::int8_t>(want));                                     \
        MC_CHECK(b.template peeku##W<E16>() == static_cast<E16>(want));                                                \
        MC_EQ(b.template peeku##W<bool>(), static_cast<bool>(want));                                                   \
        MC_EQ(b.template peeku##W<float>(), static_cast<float>(want));                                                 \
        MC_CHECK(b == at);                                                                                             \
        MC_CHECK(b.template readu##W<E8>() == static_cast<E8>(want));                                                  \
        MC_EQ(b - at, diff{W / 8});                                                                                    \
        b = at;                                                                                                        \
        b.template advanceu##W<uint64_t>();                                                                            \
        MC_EQ(b - at, diff{W / 8});                                                                                    \
        mc::step(8);                                                                                                   \
    }
template <typename T, bool Const> void reading() {
    Buf<T> buf;
    auto make = [&] {
        if constexpr (Const) {
            return stdx::byterator{std::as_const(buf.elems).begin()};
        } else {
            return stdx::byterator{buf.elems.begin()};
        }
    };
    using B = decltype(make());
    auto *raw = buf.raw();
    diff p{};
    mc::Scope sc{[&] { return "reading over elements of size " + std::to_string(sizeof(T)) + " at byte " + std::to_string(p); }};
    for (int variant = 0; variant < 2; ++variant) {
        for (diff i = 0; variant == 1 and i < BYTES; ++i) {
            raw[i] = static_cast<uint8_t>(0xff - i * 3); // top bits set: sign extension would show
        }
        for (p = 0; p <= BYTES; ++p) {
            auto const at = make() + p;
            FIXED(8)
            FIXED(16)
            FIXED(32)
            FIXED(64)
            generic_at<uint8_t>(at, raw, p);
            generic_at<std::int16_t>(at, raw, p);
            generic_at<std::int32_t>(at, raw, p);
            generic_at<uint64_t>(at, raw, p);
            generic_at<E16>(at, raw, p);
            generic_at<S3>(at, raw, p);
            generic_at<S12>(at, raw, p);
            generic_at<A16>(at, raw, p);
            generic_at<std::array<uint16_t, 5>>(at, raw, p);
            if (p < BYTES) {
                B b = at;
                static_assert(std::is_same_v<decltype(b.peek()), uint8_t>);
                MC_EQ(b.peek(), raw[p]);
                MC_EQ(b.read(), raw[p]);
                MC_EQ(b - at, diff{1});
                b = at;
                b.advance();
                MC_EQ(b - at, diff{1});
                convert_at<std::int8_t, std::int64_t>(at, static_cast<std::int8_t>(raw[p]));
                convert_at<uint8_t, E16>(at, raw[p]);
                convert_at<uint8_t, bool>(at, raw[p]);
            }
            if (p + 4 <= BYTES) {
                uint32_t w{};
                std::memcpy(&w, raw + p, 4);
                convert_at<uint32_t, uint64_t>(at, w);
                convert_at<std::int32_t, std::int64_t>(at, static_cast<std::int32_t>(w));
                convert_at<uint32_t, uint16_t>(at, w);
                convert_at<uint32_t, E8>(at, w);
            }
            mc::trace();
        }
    }
}
template <typename T> void writing() {
    Buf<T> buf;
    auto *raw = buf.raw();
    using B = decltype(stdx::byterator{buf.elems.begin()});
    diff p{};
    mc::Scope sc{[&] { return "writing over elements of size " + std::to_string(sizeof(T)) + " at byte " + std::to_string(p); }};
    auto expect = [&](B const &at, B const &b, auto const &stored) {
        MC_EQ(b - at, static_cast<diff>(sizeof stored));
        auto const want = bytes_of(stored);
        for (diff i = 0; i < BYTES; ++i) {
            bool const in = i >= p and i < p + static_cast<diff>(sizeof stored);
            MC_EQ(int{raw[i]}, in ? int{want[static_cast<std::size_t>(i - p)]} : static_cast<int>(static_cast<uint8_t>(i * 37 + 11)));
        }
        buf.fill();
        mc::step();
    };
    auto generic = [&](B const &at, auto value) {
        if (p + static_cast<diff>(sizeof value) > BYTES) {
            return;
        }
        B b = at;
        b.write(value); // lvalue
        expect(at, b, value);
        b = at;
        b.write(std::as_const(value));
        expect(at, b, value);
        b = at;
        auto copy = value;
        b.write(std::move(copy));
        expect(at, b, value);
    };
    for (p = 0; p <= BYTES; ++p) {
        B const at = stdx::byterator{buf.elems.begin()} + p;
        generic(at, uint8_t{0xA5});
        generic(at, std::int16_t{-2});
        generic(at, uint32_t{0xdeadbeef});
        generic(at, uint64_t{0x0123456789abcdef});
        generic(at, E16{0xBEEF});
        generic(at, S3{{1, 2, 3}});
        generic(at, std::array<uint16_t, 5>{1, 2, 3, 4, 0xffff});
        generic(at, 'x');
#define WFIXED(W)                                                                                                      \
    if (p + W / 8 <= BYTES) {                                                                                          \
        for (auto v : {uint64_t{0x8182838485868788}, uint64_t{0}, ~uint64_t{0}}) {                                     \
            B b = at;                                                                                                  \
            b.writeu##W(v);                                                                                            \
            expect(at, b, static_cast<uint##W##_t>(v));                                                                \
        }                                                                                                              \
        B b = at;                                                                                                      \
        b.writeu##W(E8{0x9a});                                                                                         \
        expect(at, b, static_cast<uint##W##_t>(0x9a));                                                                 \
        b = at;                                                                                                        \
        b.writeu##W(-2);                                                                                               \
        expect(at, b, static_cast<uint##W##_t>(-2));                                                                   \
        b = at;                                                                                                        \
        uint8_t const narrow{0x77};                                                                                    \
        b.writeu##W(narrow);                                                                                           \
        expect(at, b, static_cast<uint##W##_t>(0x77));                                                                 \
    }
        WFIXED(8)
        WFIXED(16)
        WFIXED(32)
        WFIXED(64)
        mc::trace();
    }
}
template <typename V, typename T> void align_one(Buf<T> &buf) {
    diff p{}, n{};
    mc::Scope sc{[&] {
        return "advance_to_alignment of a type of size " + std::to_string(sizeof(V)) + " and alignment " + std::to_string(alignof(V)) +
               " at byte " + std::to_string(p) + ", n=" + std::to_string(n);
    }};
    for (p = 0; p <= BYTES; ++p) { // the buffer itself is aligned to 16
        auto const up = (p + static_cast<diff>(alignof(V)) - 1) / static_cast<diff>(alignof(V)) * static_cast<diff>(alignof(V));
        for (n = -4; n <= 4; ++n) {
            auto const want = up + n * static_cast<diff>(sizeof(V));
            if (want < 0 or want > BYTES) {
                continue;
            }
            auto b = stdx::byterator{buf.elems.begin()} + p;
            auto *q = &b.template advance_to_alignment<V>(n);
            MC_CHECK(q == &b);
            MC_EQ(b - stdx::byterator{buf.elems.begin()}, want);
            if (n == 0) {
                auto c = stdx::byterator{std::as_const(buf.elems).begin()} + p;
                c.template advance_to_alignment<V>();
                MC_EQ(c - stdx::byterator{std::as_const(buf.elems).begin()}, want);
            }
            mc::step();
        }
    }
    mc::trace();
}
template <typename T> void alignment() {
    Buf<T> buf;
    align_one<uint8_t>(buf);
    align_one<uint16_t>(buf);
    align_one<uint32_t>(buf);
    align_one<uint64_t>(buf);
    align_one<S3>(buf);
    align_one<S4>(buf);
    align_one<S12>(buf);
    align_one<S16>(buf);
    align_one<A16>(buf);
    auto b = stdx::byterator{buf.elems.begin()} + 3;
    auto const at = b;
    b.advance_to_alignment();
    MC_CHECK(b == at);
    b.advance_to_alignment(2);
    MC_EQ(b - at, diff{2});
}
// other sources: pointers, vectors, a range that starts at an odd address
void sources() {
    std::vector<uint16_t> v{0x0201, 0x0403, 0x0605};
    auto b = stdx::byterator{v.begin()};
    MC_EQ(b.readu8(), 1);
    MC_EQ(b.readu16(), 0x0302);
    MC_CHECK(b < v.end() and b > v.begin() and v.begin() + 1 < b);
    MC_EQ((b + 3).operator->() == reinterpret_cast<std::byte *>(v.data() + 3), true);
    auto const &cv = v;
    auto c = stdx::byterator{cv.begin()};
    static_assert(std::is_same_v<decltype(c), stdx::byterator<uint16_t const>>);
    MC_EQ(c.readu32(), 0x04030201u);
    uint8_t raw[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
    for (int off = 0; off < 9; ++off) {
        auto r = stdx::byterator{raw + off};
        static_assert(std::is_same_v<decltype(r), stdx::byterator<uint8_t>>);
        for (int i = off; i < 9; ++i) {
            MC_CHECK(r == raw + i);
            MC_EQ(int{r.readu8()}, i + 1);
            mc::step();
        }
        MC_CHECK(r == raw + 9);
        mc::state(mc::hash_of(1234, off));
    }
    uint32_t const carr[2] = {0x04030201, 0x08070605};
    auto k = stdx::byterator{std::begin(carr)};
    static_assert(std::is_same_v<decltype(k), stdx::byterator<uint32_t const>>);
    MC_EQ(k.readu64(), 0x0807060504030201u);
    MC_CHECK(k == std::end(carr));
    mc::trace();
}
// values of many bytes
template <std::size_t N> struct Big { std::array<uint8_t, N> bytes; };
template <std::size_t N> void big_values() {
    std::vector<uint8_t> raw(3 * N + 70000);
    for (diff off = 0; off < 3; ++off) {
        mc::Scope sc{[&] { return "values of " + std::to_string(N) + " bytes at byte " + std::to_string(off); }};
        std::fill(raw.begin(), raw.end(), uint8_t{0xEE});
        Big<N> value{};
        for (std::size_t i{}; i < N; ++i) { value.bytes[i] = static_cast<uint8_t>(i * 7 + i / 256 + 1); }
        auto const at = stdx::byterator{raw.begin()} + off;
        auto b = at;
        b.write(value);
        MC_EQ(b - at, static_cast<diff>(N));
        b.write(value);
        MC_EQ(b - at, static_cast<diff>(2 * N));
        for (std::size_t i{}; i < raw.size(); ++i) {
            bool const in = i >= static_cast<std::size_t>(off) and i < static_cast<std::size_t>(off) + 2 * N;
            MC_EQ(int{raw[i]}, in ? int{value.bytes[(i - static_cast<std::size_t>(off)) % N]} : 0xEE);
        }
        b = at;
        MC_CHECK(b.template peek<Big<N>>().bytes == value.bytes);
        MC_CHECK(b == at);
        MC_CHECK(b.template read<Big<N>>().bytes == value.bytes);
        MC_EQ(b - at, static_cast<diff>(N));
        MC_CHECK(b.template read<Big<N>>().bytes == value.bytes);
        b.template advance<Big<N>>();
        MC_EQ(b - at, static_cast<diff>(3 * N));
        b = at;
        b.template advance_to_alignment<Big<N>>(2);
        MC_EQ(b - at, static_cast<diff>(2 * N));
        mc::step(8);
        mc::trace();
        mc::state(mc::hash_of(N, off));
    }
}
#if MC_IN_PART(0)
MC_SECTION("walk_u8") { walk<uint8_t, false>(); walk<uint8_t, true>(); }
MC_SECTION("walk_u32") { walk<uint32_t, false>(); walk<uint32_t, true>(); }
MC_SECTION("walk_S3") { walk<S3, false>(); walk<S3, true>(); }
MC_SECTION("walk_S16") { walk<S16, false>(); walk<S16, true>(); }
MC_SECTION("walk_S4") { walk<S4, false>(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("reading_u8") { reading<uint8_t, false>(); reading<uint8_t, true>(); }
MC_SECTION("reading_u16") { reading<uint16_t, true>(); }
MC_SECTION("reading_u64") { reading<uint64_t, false>(); }
MC_SECTION("reading_S12") { reading<S12, true>(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("writing_u8") { writing<uint8_t>(); }
MC_SECTION("writing_u32") { writing<uint32_t>(); }
MC_SECTION("writing_S3") { writing<S3>(); }
MC_SECTION("alignment_u8") { alignment<uint8_t>(); }
MC_SECTION("alignment_u64") { alignment<uint64_t>(); }
MC_SECTION("sources") { sources(); }
MC_SECTION("big_values") { big_values<127>(); big_values<128>(); big_values<255>(); big_values<256>(); big_values<300>(); big_values<32768>(); big_values<65537>(); }
#endif
} // namespace
