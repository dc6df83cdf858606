// stdx::atomic: all operand values of 8-bit types (boundary values above) sequentially, and all interleavings of small threads.
#include <conc/atomic.hpp>
#include <stdx/atomic.hpp>

#include <mc.hpp>
#include <atomic>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>
namespace {
using std::size_t;
enum struct En : std::uint8_t { a, b, c = 200 };
enum struct Es : int { a = -5, b = 7, c = std::numeric_limits<int>::max() };
enum Old : std::uint8_t { o1, o2 = 255 };

template <typename T> auto w(T t) -> std::uint64_t { return static_cast<std::uint64_t>(t); }
template <typename T> struct Both { // the real thing and the reference
    stdx::atomic<T> a;
    std::atomic<T> r;
    explicit Both(T v) : a{v}, r{v} { conc_shim::reset(); }
    void same() { MC_EQ(w(a.load()), w(r.load())); }
};
template <typename T> void plain_pair(T x, T y) {
    mc::Scope scp{[&] { return "value " + std::to_string(w(x)) + " operand " + std::to_string(w(y)); }};
#define BOTH(expr)                                                                                                                                                                                                                                             \
    do {                                                                                                                                                                                                                                                       \
        mc::Scope in{[&] { return std::string{#expr}; }};                                                                                                                                                                                                      \
        Both<T> p{x};                                                                                                                                                                                                                                          \
        auto const f = [&](auto &v) { return expr; };                                                                                                                                                                                                          \
        static_assert(std::is_same_v<decltype(f(p.a)), T>);                                                                                                                                                                                                    \
        MC_EQ(w(f(p.a)), w(f(p.r)));                                                                                                                                                                                                                           \
        p.same();                                                                                                                                                                                                                                              \
        mc::step();                                                                                                                                                                                                                                            \
    } while (false)
    BOTH(v.load());
    BOTH((v.store(y), v.load()));
    BOTH((v = y));
    BOTH(static_cast<T>(v));
    BOTH(v.exchange(y));
    BOTH((v.exchange(y), v.exchange(x)));
    BOTH((v = y, v = x, v.exchange(y)));
    mc::trace();
    mc::state(mc::hash_of(w(x), w(y), sizeof(T)));
}
template <typename T> void number_pair(T x, T y) {
    plain_pair(x, y);
    mc::Scope scp{[&] { return "value " + std::to_string(x) + " operand " + std::to_string(y); }};
    BOTH(v.fetch_add(y));
    BOTH(v.fetch_sub(y));
    BOTH(v.fetch_and(y));
    BOTH(v.fetch_or(y));
    BOTH(v.fetch_xor(y));
    BOTH(v += y);
    BOTH(v -= y);
    BOTH(v &= y);
    BOTH(v |= y);
    BOTH(v ^= y);
    BOTH(++v);
    BOTH(v++);
    BOTH(--v);
    BOTH(v--);
    // several in a row: what one leaves behind the next finds
    BOTH((v += y, v.fetch_sub(x), v++));
    BOTH((v -= y, --v, v.exchange(y)));
    BOTH((v += y, v.fetch_xor(y), v |= x));
    BOTH((v -= y, v.fetch_and(x)));
}
template <typename T> void numbers() {
    {
        Both<T> d{T{}};
        stdx::atomic<T> z{};
        MC_EQ(w(z.load()), w(T{}));
        static_assert(std::is_same_v<typename stdx::atomic<T>::value_type, T>);
        static_assert(not std::is_copy_constructible_v<stdx::atomic<T>> and not std::is_copy_assignable_v<stdx::atomic<T>>);
        static_assert(sizeof(stdx::atomic<T>) >= sizeof(::atomic::atomic_type_t<T>) and alignof(stdx::atomic<T>) == ::atomic::alignment_of<T>);
        conc_shim::reset();
    }
    std::vector<T> vs;
    if constexpr (sizeof(T) == 1) {
        for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) { vs.push_back(static_cast<T>(i)); }
    } else {
        using L = std::numeric_limits<T>;
        for (auto i : {0, 1, 2, 3, 100, 255, 256, -1, -2, -100}) { vs.push_back(static_cast<T>(i)); }
        for (auto d : {0, 1, 2}) {
            vs.push_back(static_cast<T>(L::max() - d));
            vs.push_back(static_cast<T>(L::min() + d));
            vs.push_back(static_cast<T>(L::max() / 2 + d));
            vs.push_back(static_cast<T>(L::max() / 3 + d));
        }
    }
    for (T x : vs) {
        for (T y : vs) { number_pair<T>(x, y); }
    }
}
MC_SECTION("bytes") { numbers<std::uint8_t>(); }
MC_SECTION("signed_bytes") { numbers<std::int8_t>(); }
MC_SECTION("wider") {
    numbers<std::uint16_t>();
    numbers<std::int16_t>();
    numbers<std::uint32_t>();
    numbers<std::int32_t>();
    numbers<std::uint64_t>();
    numbers<std::int64_t>();
    numbers<char>();
}
template <typename T> void plain(std::vector<T> const &vs) {
    for (T x : vs) {
        for (T y : vs) { plain_pair<T>(x, y); }
    }
}
MC_SECTION("others") {
    {
        mc::Scope scp{[] { return std::string{"bool"}; }};
        for (int i{}; i < 4; ++i) { plain_pair<bool>((i & 1) != 0, (i & 2) != 0); }
        stdx::atomic<bool> z{};
        MC_EQ(z.load(), false);
        conc_shim::reset();
    }
    plain<En>({En::a, En::b, En::c, static_cast<En>(255)});
    plain<Es>({Es::a, Es::b, Es::c, static_cast<Es>(std::numeric_limits<int>::min())});
    plain<Old>({o1, o2});
    plain<wchar_t>({L'a', L'\xff'});
}
} // namespace
