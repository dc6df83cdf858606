// counting_iterator as the integer it counts: every 8-bit position and jump, all positions and jumps near powers of two for wider types; ct_capacity of every container shape.
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>
#include <stdx/span.hpp>

#include <mc.hpp>
#include <array>
#include <compare>
#include <limits>
#include <span>
#include <string>
#include <vector>
namespace {
using std::size_t;
using wide = __int128;
template <typename T> using It = stdx::counting_iterator<T>;
// whether the integer operation itself is free of signed overflow in the promoted type
template <typename T> auto fits(wide v) -> bool {
    using P = decltype(T{} + T{});
    if constexpr (std::is_unsigned_v<P>) { return true; }
    return v >= std::numeric_limits<P>::min() and v <= std::numeric_limits<P>::max();
}
template <typename T> auto spread() -> std::vector<T> {
    std::vector<T> v;
    for (size_t k{}; k < sizeof(T) * 8; ++k) {
        for (wide d = -2; d <= 2; ++d) {
            v.push_back(static_cast<T>((wide{1} << k) + d));
            if constexpr (std::is_signed_v<T>) { v.push_back(static_cast<T>(-(wide{1} << k) + d)); }
        }
    }
    v.push_back(std::numeric_limits<T>::max());
    v.push_back(std::numeric_limits<T>::min());
    return v;
}
template <typename T> void at(T i) {
    mc::Scope scp{[&] { return "position " + mc::show(i); }};
    It<T> const c{i};
    MC_EQ(*c, i);
    MC_EQ(c.i, i);
    It<T> m{i};
    MC_EQ(*m, i);
    if (fits<T>(wide{i} + 1)) {
        T const next = static_cast<T>(wide{i} + 1);
        MC_EQ(*++m, next);
        MC_EQ(*m, next);
        m = c;
        MC_EQ(*m++, i);
        MC_EQ(*m, next);
        m = c;
        MC_CHECK(&++m == &m);
    }
    if (fits<T>(wide{i} - 1)) {
        T const prev = static_cast<T>(wide{i} - 1);
        m = c;
        MC_EQ(*--m, prev);
        MC_EQ(*m, prev);
        m = c;
        MC_EQ(*m--, i);
        MC_EQ(*m, prev);
        m = c;
        MC_CHECK(&--m == &m);
    }
    It<T> w{i};
    *w = static_cast<T>(7); // the position can be set through the iterator
    MC_EQ(*w, static_cast<T>(7));
    mc::step(8);
    mc::state(mc::hash_of(static_cast<std::uint64_t>(i)));
}
template <typename T, typename D> void jump(T i, D d) {
    mc::Scope scp{[&] { return "position " + mc::show(i) + " jump " + mc::show(d); }};
    It<T> const c{i};
    if (fits<T>(wide{i} + wide{d})) {
        T const want = static_cast<T>(wide{i} + wide{d});
        It<T> m{i};
        MC_CHECK(&(m += d) == &m);
        MC_EQ(*m, want);
        m = c;
        MC_CHECK(&m.advance(d) == &m);
        MC_EQ(*m, want);
        MC_EQ(*(c + d), want);
        MC_EQ(*(d + c), want);
        MC_EQ(*c, i);
        mc::step(4);
    }
    if (fits<T>(wide{i} - wide{d})) {
        T const want = static_cast<T>(wide{i} - wide{d});
        It<T> m{i};
        MC_CHECK(&(m -= d) == &m);
        MC_EQ(*m, want);
        MC_EQ(*(c - d), want);
        MC_EQ(*c, i);
        mc::step(2);
    }
}
template <typename T> void pair(T i, T j) {
    mc::Scope scp{[&] { return "positions " + mc::show(i) + " and " + mc::show(j); }};
    It<T> const x{i}, y{j};
    using D = typename It<T>::difference_type;
    if (fits<T>(wide{i} - wide{j})) {
        MC_EQ(x - y, static_cast<D>(wide{i} - wide{j}));
        MC_EQ(*(y + (x - y)), i);
    }
    MC_EQ(x == y, i == j);
    MC_EQ(x != y, i != j);
    MC_EQ(x < y, i < j);
    MC_EQ(x <= y, i <= j);
    MC_EQ(x > y, i > j);
    MC_EQ(x >= y, i >= j);
    MC_CHECK((x <=> y) == (i <=> j));
    mc::step(8);
    mc::trace();
}
template <typename T> void positions() {
    static_assert(std::is_same_v<typename It<T>::difference_type, decltype(T{} - T{})> and std::is_same_v<typename It<T>::value_type, T>);
    static_assert(std::is_same_v<decltype(stdx::counting_iterator{T{}}), It<T>> and std::is_same_v<stdx::counting_iterator<>, It<int>>);
    MC_EQ(*It<T>{}, T{});
    using D = typename It<T>::difference_type;
    auto const few = [] {
        if constexpr (sizeof(T) == 1) {
            return mc::dense_or_all<T>();
        } else {
            return spread<T>();
        }
    }();
    std::vector<D> jumps;
    if constexpr (sizeof(T) == 1) {
        for (int d = -260; d <= 260; ++d) { jumps.push_back(d); }
    } else {
        for (auto d : spread<D>()) { jumps.push_back(d); }
    }
    for (T i : few) {
        at<T>(i);
        for (D d : jumps) { jump<T, D>(i, d); }
        for (T j : few) { pair<T>(i, j); }
    }
}
MC_SECTION("positions8") {
    positions<std::int8_t>();
    positions<std::uint8_t>();
    positions<char>();
}
MC_SECTION("positions16") {
    positions<std::int16_t>();
    positions<std::uint16_t>();
}
MC_SECTION("positions32") {
    positions<int>();
    positions<unsigned>();
}
MC_SECTION("positions64") {
    positions<long>();
    positions<unsigned long>();
}
// every history of 6 moves from a few starting points
template <typename T> void walk(T start) {
    mc::all_choices([&](mc::Choices &c) {
        It<T> it{start};
        wide at = start;
        std::string h = "from " + mc::show(start);
        mc::Scope scp{[&] { return h; }};
        for (int k{}; k < 6; ++k) {
            switch (c.next(8)) {
            case 0: MC_EQ(wide{*++it}, wide{++at}); h += " ++it"; break;
            case 1: MC_EQ(wide{*it++}, wide{at++}); h += " it++"; break;
            case 2: MC_EQ(wide{*--it}, wide{--at}); h += " --it"; break;
            case 3: MC_EQ(wide{*it--}, wide{at--}); h += " it--"; break;
            case 4: it += 3; at += 3; h += " +=3"; break;
            case 5: it -= 2; at -= 2; h += " -=2"; break;
            case 6: it.advance(5); at += 5; h += " advance(5)"; break;
            default: it = 4 + (it - 1); at += 3; h += " =4+(it-1)"; break;
            }
            MC_EQ(wide{*it}, at);
            mc::step();
        }
        MC_EQ(it - It<T>{start}, static_cast<typename It<T>::difference_type>(at - start));
        mc::trace();
    });
}
MC_SECTION("walks") {
    walk<int>(0);
    walk<int>(-3);
    walk<unsigned>(100);
    walk<char>('A');
    if (mc::thorough) {
        walk<long>(1L << 40);
        walk<std::uint8_t>(100);
        walk<short>(-5);
    }
}

// ---- capacities
template <typename C> void cap(size_t n) {
    MC_EQ(stdx::ct_capacity_v<C>, n);
    MC_EQ(stdx::ct_capacity_v<C const>, n);
    static_assert(std::is_same_v<decltype(stdx::ct_capacity(std::declval<C &>())), size_t>);
    mc::step(2);
}
template <typename C> void cap_obj(size_t n) {
    cap<C>(n);
    static C c{};
    static C const k{};
    constexpr auto a = stdx::ct_capacity(c);
    constexpr auto b = stdx::ct_capacity(k);
    constexpr auto d = stdx::ct_capacity(C{});
    MC_EQ(a, n);
    MC_EQ(b, n);
    MC_EQ(d, n);
    mc::step(3);
}
template <size_t N> void caps() {
    mc::Scope scp{[&] { return "capacity " + std::to_string(N); }};
    cap_obj<std::array<int, N>>(N);
    if constexpr (N > 0) {
        static int arr[N]{};
        static int const carr[N]{};
        MC_EQ(stdx::ct_capacity(arr), N);
        MC_EQ(stdx::ct_capacity(carr), N);
        MC_EQ(stdx::ct_capacity_v<char[N]>, N);
        MC_EQ(stdx::ct_capacity_v<char const[N]>, N);
        MC_EQ((stdx::ct_capacity_v<char[N][3]>), N);
        MC_EQ((stdx::ct_capacity_v<std::array<std::array<int, 5>, N>>), N);
        cap_obj<stdx::cx_vector<int, N>>(N);
        cap_obj<stdx::cx_queue<int, N>>(N);
        cap<stdx::cx_queue<int, N, stdx::unsafe_overflow_policy>>(N);
        cap_obj<stdx::cx_set<int, N>>(N);
        cap_obj<stdx::cx_map<int, char, N>>(N);
        cap_obj<stdx::cx_multimap<int, char, N>>(N);
        cap_obj<stdx::cx_multimap<int, char, N, 3>>(N);
        cap_obj<stdx::cx_multimap<int, char, N, N + 2>>(N);
        cap<std::span<int, N>>(N);
        cap<std::span<int const, N>>(N);
        cap<stdx::span<int, N>>(N);
        cap<stdx::span<int const, N>>(N);
    }
    mc::trace();
    mc::state(mc::hash_of(N));
}
MC_SECTION("capacities") {
    [&]<size_t... Is>(std::index_sequence<Is...>) { (caps<Is>(), ...); }(std::make_index_sequence<9>{});
    caps<31>();
    caps<256>();
    caps<1000>();
}
} // namespace
